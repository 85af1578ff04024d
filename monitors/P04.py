"""Body ids: a dict model shadows the body container through random histories."""
from common import *
import pickle

RULE = ('a case is a random history of appending (one, list, clump), inserting at an id, erasing, clumping, stepping, saving and restoring and hostile requests; after every operation '
        'every accessor is compared with a dict model; distinct = (operation, previous operation, invalid argument class, size class)')
ASSUMPTIONS = ['len(O.bodies) counts the slots of erased bodies too (documented)', 'after O.bodies.clear() nothing refers to the old bodies any more, so it is only used without interactions']


def plan(tier):
    k = 1 if tier == 'quick' else 10
    return [dict(func='history', name='history-t%d' % th, threads=th, args=dict(n=400 * k)) for th in (1, 2, 4)] + [dict(func='behave', name='behave', args=dict(n=120 * k))]


def tag(b):
    """What tells one body from another in these histories."""
    return b.state.refPos[0]


def compare(ctx, M, size, key, where, rng):
    live = sorted(M)
    ctx.observed(key, 3 + len(live))
    ctx.check(len(O.bodies) == size, 'length', lambda: '%s: len %d, expected %d' % (where, len(O.bodies), size))
    it = [(b.id, tag(b)) for b in O.bodies]
    ctx.check([i for i, _ in it] == live, 'iteration', lambda: '%s: iteration gives %s, expected %s' % (where, [i for i, _ in it], live))
    for i, t in it:
        ctx.check(t == M[i], 'identity', lambda: '%s: body %d is another one (%r, expected %r)' % (where, i, t, M[i]))
    for i in range(size):
        for j in (i, i - size):
            b = O.bodies[j]
            if i in M:
                ctx.check(b is not None and b.id == i and tag(b) == M[i], 'lookup', lambda: '%s: O.bodies[%d] is %s' % (where, j, b if b is None else (b.id, tag(b))))
            else:
                ctx.check(b is None, 'erased-lookup', lambda: '%s: O.bodies[%d] of an erased id gives body %d' % (where, j, b.id))
    for j in (size, size + 3, -size - 1, 2**31 - 1, -2**31):
        try:
            O.bodies[j]
            ctx.violation('range', '%s: O.bodies[%d] accepted with %d slots' % (where, j, size))
        except IndexError:
            pass


@each(20)
def history(ctx, c):
    rng = c.rng
    fresh()
    O.dt = 1e-6
    O.engines = frict_engines(newton=NewtonIntegrator(damping=.2, gravity=(0, 0, -1)), collider=InsertionSortCollider([Bo1_Sphere_Aabb()], verletDist=rng.choice((0, .1))))
    M = {}        # id -> tag
    clumps = {}   # clump id -> member ids
    size = 0
    ntag = [0]
    recent = ['start']

    def new(r=None):
        ntag[0] += 1
        b = utils.sphere(rvec(rng, 3), r or rng.uniform(.1, .7))
        b.state.refPos = (float(ntag[0]), 0, 0)
        return b

    held = {}   # id -> python object held by the script
    for s in range(rng.randint(20, 60)):
        op = rng.choices(('append', 'list', 'clump', 'clumpids', 'erase', 'eraseclump', 'reinsert', 'step', 'reload', 'again', 'hostile', 'loop', 'hold'), (6, 3, 2, 2, 7, 2, 5, 4, 2, 2, 5, 1, 2))[0]
        recent.append(op)
        where = 'after ' + ' '.join(recent[-14:])
        ctx.mark('%d %s' % (c.idx, ' '.join(recent[-25:])))
        dead = [i for i in range(size) if i not in M]
        if op == 'append':
            b = new()
            i = O.bodies.append(b)
            ctx.check(i == size and b.id == i, 'append', '%s: appended at %d, expected %d' % (where, i, size))
            M[i] = tag(b); size += 1
        elif op == 'list':
            bb = [new() for _ in range(rng.randint(0, 5))]
            got = O.bodies.append(bb)
            ctx.check(list(got) == list(range(size, size + len(bb))), 'append-list', '%s: ids %s' % (where, list(got)))
            for b in bb: M[b.id] = tag(b)
            size += len(bb)
        elif op == 'clump':
            bb = [new() for _ in range(rng.randint(1, 4))]
            cid, got = O.bodies.appendClumped(bb)
            ctx.check(list(got) == list(range(size, size + len(bb))) and cid == size + len(bb), 'append-clump', '%s: ids %s clump %d' % (where, list(got), cid))
            for b in bb: M[b.id] = tag(b)
            size += len(bb) + 1
            M[cid] = tag(O.bodies[cid]); clumps[cid] = set(got)
        elif op == 'clumpids':
            free = [i for i in M if i not in clumps and not any(i in m for m in clumps.values())]
            if len(free) > 2:
                ids = rng.sample(free, 2)
                cid = O.bodies.clump(ids)
                ctx.check(cid == size, 'clump-id', '%s: clump id %d' % (where, cid))
                size += 1
                M[cid] = tag(O.bodies[cid]); clumps[cid] = set(ids)
        elif op in ('erase', 'eraseclump') and M:
            i = rng.choice(sorted(M))
            if op == 'eraseclump' and clumps: i = rng.choice(sorted(clumps))
            withm = rng.random() < .5
            b = O.bodies[i]
            ctx.check(O.bodies.erase(i, withm), 'erase', '%s: erase(%d) said no' % (where, i))
            gone = {i}
            if i in clumps:
                if withm: gone |= clumps[i]
                del clumps[i]
            else:
                for cid in list(clumps):
                    if i in clumps[cid]:
                        clumps[cid].discard(i)
                        if not clumps[cid]:
                            gone.add(cid); del clumps[cid]
                ctx.check(b.id == -1, 'erased-id', '%s: the erased body still has id %d' % (where, b.id))
            for g in gone: del M[g]
        elif op == 'reinsert' and dead:
            i = rng.choice(dead)
            b = new()
            ctx.check(O.bodies.insertAtId(b, i) == i and b.id == i, 'insertAtId', '%s: at %d got %d' % (where, i, b.id))
            M[i] = tag(b)
        elif op == 'hold' and M:
            i = rng.choice(sorted(M))
            held[i] = (O.bodies[i], M[i])
        elif op == 'step':
            for _ in range(rng.choice((1, 3))): O.step()
        elif op == 'reload':
            how = rng.choice(('tmp', 'bin', 'xml'))
            if how == 'tmp':
                O.saveTmp('q', quiet=True); O.loadTmp('q', quiet=True)
            else:
                f = os.path.join(os.getcwd(), 'b.yade' if how == 'xml' else 'b.yade.bin')
                O.save(f, quiet=True); O.load(f, quiet=True)
            held.clear()
        elif op == 'again' and M:
            i = rng.choice(sorted(M))
            b = O.bodies[i]
            for f in (lambda: O.bodies.append(b), lambda: O.bodies.append([b]), lambda: O.bodies.insertAtId(b, dead[0] if dead else 0)):
                try:
                    r = f()
                    ctx.check(r == -1, 'inserted-twice', '%s: body %d was inserted again as %s' % (where, i, r))
                except IndexError:
                    pass
        elif op == 'loop':
            n = 0
            for b in O.bodies:   # growing the container in a loop over it
                if n < 40:
                    x = new(); O.bodies.append(x); M[x.id] = tag(x); size += 1
                n += 1
            ctx.check(n >= 1 or not M, 'loop', where)
        elif op == 'hostile':
            for _ in range(3):
                bad = rng.choice([-1, -5, size, size + 1, size + 1000, 2**31 - 1, -2**31] + dead[:4] + dead[-2:])
                if bad in M: continue
                what = rng.choice(('erase', 'insert', 'clump', 'addclump', 'release', 'none', 'forces', 'dup', 'type'))
                ctx.observed(('hostile', what, 'neg' if bad < 0 else 'dead' if bad < size else 'past'))
                ctx.mark('%d %s %s(%d)' % (c.idx, ' '.join(recent[-25:]), what, bad))
                ok = False
                try:
                    if what == 'erase':
                        ok = O.bodies.erase(bad, rng.random() < .5)
                    elif what == 'insert':
                        if bad in dead:
                            continue
                        ok = O.bodies.insertAtId(new(), bad) != -1
                    elif what == 'clump':
                        O.bodies.clump([rng.choice(sorted(M)), bad] if M else [bad]); ok = True
                    elif what == 'dup':
                        O.bodies.clump([sorted(M)[0]] * 2 if M else []); ok = True
                    elif what == 'addclump':
                        if rng.random() < .5 and clumps: O.bodies.addToClump([bad], sorted(clumps)[0])
                        else: O.bodies.addToClump(sorted(M)[:1], bad)
                        ok = True
                    elif what == 'release':
                        if rng.random() < .5 and clumps: O.bodies.releaseFromClump(bad, sorted(clumps)[0])
                        else: O.bodies.releaseFromClump(sorted(M)[0] if M else 0, bad)
                        ok = True
                    elif what == 'none':
                        O.bodies.append(None); ok = True
                    elif what == 'type':
                        O.bodies.append(rng.choice((3, 'x', [None], Sphere()))); ok = True
                    elif what == 'forces':
                        if 0 <= bad < size:
                            O.forces.f(bad)   # the slot of an erased body: zero force
                        else:
                            rng.choice((O.forces.f, O.forces.t, O.forces.permF, lambda i: O.forces.addF(i, Vector3(1, 2, 3)), lambda i: O.forces.setPermF(i, Vector3(1, 2, 3)), O.forces.move))(bad)
                            ok = True
                except (IndexError, ValueError, TypeError, RuntimeError):
                    pass
                ctx.check(not ok, 'accepted:' + what, lambda: '%s: %s with id %d was accepted (%d slots, erased %s)' % (where, what, bad, size, dead[:6]))
        compare(ctx, M, size, (op, recent[-2], len(M).bit_length(), bool(dead)), where, rng)
        for i, (b, t) in held.items():
            if i in M and M[i] == t:
                ctx.check(b.id == i, 'held-id', lambda: '%s: body %d now says it is %d' % (where, i, b.id))
        ctx.check(set(b.id for b in O.bodies if b.isClump) == set(clumps), 'clump-set', lambda: '%s: clumps %s expected %s' % (where, [b.id for b in O.bodies if b.isClump], sorted(clumps)))
        for cid in clumps:
            mem = set(O.bodies[cid].shape.members.keys())
            ctx.check(mem == clumps[cid] and all(O.bodies[m].clumpId == cid for m in mem), 'members', lambda: '%s: clump %d members %s expected %s, they say %s' % (where, cid, sorted(mem), sorted(clumps[cid]), [O.bodies[m].clumpId for m in mem if O.bodies[m]]))
        for b in O.bodies:
            if b.isClumpMember:
                ctx.check(b.clumpId in clumps and b.id in clumps[b.clumpId], 'member-of', lambda: '%s: body %d says it is in clump %d' % (where, b.id, b.clumpId))
    ctx.sample('history: ' + ' '.join(recent[:25]))


@each(10)
def behave(ctx, c):
    """Erasing and re-inserting bodies far away does not change what happens to the others."""
    rng = c.rng
    n = rng.randint(3, 12)
    spec = [(rvec(rng, 1.2), rng.uniform(.2, .6), rvec(rng, 1), rvec(rng, 2)) for _ in range(n)]
    extra = rng.randint(1, 6)

    def run(withextra):
        fresh()
        r = __import__('random').Random(c.seed)
        O.dt = 2e-4
        O.engines = frict_engines(newton=NewtonIntegrator(damping=.1, gravity=(0, 0, -3)), collider=InsertionSortCollider([Bo1_Sphere_Aabb()], verletDist=r.choice((0, .05))))
        O.materials.append(FrictMat(young=1e5, frictionAngle=.4, density=1000))
        ids, far = [], []
        for k, (p, rad, v, w) in enumerate(spec):
            b = utils.sphere(p, rad); b.state.vel = v; b.state.angVel = w
            ids.append(O.bodies.append(b))
            for e in range(extra if withextra and k in (0, n // 2) else 0):
                far.append(O.bodies.append(utils.sphere((100 + 3 * len(far), 0, 0), .5)))
        out = []
        for s in range(60):
            if withextra and s % 7 == 3:
                k = r.randrange(len(far))
                if O.bodies[far[k]]: O.bodies.erase(far[k])
                else: O.bodies.insertAtId(utils.sphere((100 + 3 * k, s, 0), .5), far[k])
            if withextra and s % 13 == 5:
                far.append(O.bodies.append(utils.sphere((100 + 3 * len(far), 0, 0), .5)))
            O.step()
            out.append([(O.bodies[i].state.pos, O.bodies[i].state.vel, O.bodies[i].state.angVel) for i in ids])
        return out

    a, b = run(False), run(True)
    for s in range(len(a)):
        for k in range(n):
            ctx.observed((n, extra, s))
            for x, y in zip(a[s][k], b[s][k]):
                ctx.check((x - y).norm() <= 1e-7 * (1 + x.norm()), 'others-changed', lambda: 'step %d body %d: %s without, %s with erased and inserted bodies far away' % (s, k, x, y))
