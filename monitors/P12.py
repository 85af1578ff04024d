"""Steps executed are exactly those asked for, whatever the way and the moment of asking."""
from common import *
import time
import p12log
from p12log import EV, HOOK

RULE = ('a case is a random control history (step, run with and without waiting, pause at random moments, stop at a step or time, sub-stepping, engine lists replaced from outside and inside a step, engines switched off, '
        'errors raised by an engine, scene switching) over engines that log every call; the recorded trace is matched call by call with the specification; evaluations are the calls matched plus the states checked after each operation; '
        'distinct = (operation, previous operation, where in the step it hit, number of engines)')
ASSUMPTIONS = ['errors are those raised by engines (a failing PyRunner command is printed and ignored by design)', 'the script waits for a paused run before acting on the simulation again',
               'timing is only used to vary the schedule; nothing depends on how long a step takes (a case that never ends is reported by the watchdog)']


def plan(tier):
    k = 1 if tier == 'quick' else 10
    jobs = [dict(func='control', name='control-%d' % i, args=dict(n=25 * k)) for i in range(4)]
    jobs += [dict(func='control', name='control-t2', threads=2, args=dict(n=15 * k)), dict(func='physics', name='physics', args=dict(n=25 * k)), dict(func='multiscene', name='multiscene', args=dict(n=25 * k)),
             dict(func='teardown', name='teardown', args=dict(n=25 * k))]
    return jobs


def logger(tag, **kw): return PyRunner(command='import p12log; p12log.ev(%r)' % tag, iterPeriod=1, initRun=True, label='', **kw)


def bomb():
    e = InsertionSortCollider([Bo1_Sphere_Aabb()], verletDist=.1); e.dead = True
    return e


class Model:
    """What the trace has to look like."""

    def __init__(self): self.pos = 0; self.iter = 0; self.time = 0.; self.engines = []; self.left = None


@each(25)
def control(ctx, c):
    rng = c.rng
    fresh(); p12log.clear(); p12log.JIT.seed(c.seed); p12log.SLEEP = rng.choice((0, 0, 1e-3, 4e-3))
    dt = O.dt = rng.choice((1e-4, .25, 1., .1))
    if rng.random() < .3: O.periodic = True; O.cell.setBox(10, 10, 10); O.cell.velGrad = Matrix3(1e-3, 0, 0, 0, 0, 0, 0, 0, 0)
    b = utils.sphere((0, 0, 0), 1); b.bounded = False
    O.bodies.append(b)
    nE = rng.randint(1, 4)
    tags = ['e%d' % i for i in range(nE)]
    count = [nE]

    def newlist():
        n = rng.randint(1, 4); L = []
        for _ in range(n): L.append('e%d' % count[0]); count[0] += 1
        return L
    def engines(L): return [logger(t) for t in L] + [bomb()]
    alive = dict((t, True) for t in tags)
    O.engines = engines(tags)
    st = dict(tags=list(tags), bombAt=len(tags))   # engines in force for the next step
    hist = []
    n0 = 0            # trace already matched
    expIter, expTime = 0, 0.
    where = lambda: 'after %s' % ' '.join(hist[-8:])

    def match(lists, key):
        """The trace since the last match is the given list of (tags, iter)."""
        nonlocal n0
        got = [(e[0], e[1]) for e in EV[n0:]]
        want = [(t, it) for L, it in lists for t in L]
        if got != want:
            k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            ctx.violation('trace:' + key, '%s: call %d is %s, expected %s (%d calls recorded, %d expected)' % (where(), k, got[k] if k < len(got) else 'missing', want[k] if k < len(want) else 'none', len(got), len(want)))
        ctx.observed(None, len(want))
        n0 = len(EV)

    def clock(key, it, t):
        ctx.check(O.iter == it, 'iter:' + key, lambda: '%s: step counter %d, expected %d' % (where(), O.iter, it))
        ctx.check(close(O.time, t, 1e-9), 'time:' + key, lambda: '%s: time %r, expected %r' % (where(), O.time, t))

    def active(): return [t for t in st['tags'] if alive.get(t, True)]

    def advance(k, dtn=None):
        nonlocal expIter, expTime
        L = []
        for _ in range(k):
            L.append((active(), expIter)); expIter += 1; expTime += O.dt
        return L

    def settle(key):
        """Nothing happens after the wait."""
        n = len(EV); it = O.iter
        time.sleep(.003 if p12log.SLEEP == 0 else .012)
        ctx.check(len(EV) == n and O.iter == it and not O.running, 'after-wait:' + key, lambda: '%s: %d engine calls after waiting for the simulation to stop' % (where(), len(EV) - n))

    for s in range(25):
        op = rng.choice(('step', 'step', 'run', 'runwait', 'pause', 'pause', 'stopIter', 'stopTime', 'substep', 'engines', 'inside', 'dead', 'insidePause', 'bombstep', 'bombrun', 'dt'))
        hist.append(op); ctx.mark('%d %s' % (c.idx, ' '.join(hist)))
        if op == 'step':
            k = rng.randint(1, 3)
            for _ in range(k): O.step()
            match(advance(k), op)
        elif op in ('run', 'runwait'):
            k = rng.randint(1, 12)
            if op == 'run': O.run(k); time.sleep(rng.random() * .004); O.wait()
            else: O.run(k, True)
            settle(op); match(advance(k), op)
        elif op == 'stopIter':
            k = rng.randint(1, 9); O.stopAtIter = O.iter + k
            O.run(); O.wait(); settle(op); match(advance(k), op)
        elif op == 'stopTime':
            k = rng.randint(1, 9); T = O.time + O.dt * (k - rng.choice((.5, .25, 0.)))
            O.stopAtTime = T; O.stopAtIter = O.iter + 3 * k + 5
            ctx.check(close(O.stopAtTime, T, 1e-12), 'stopAtTime-kept', lambda: 'stopAtTime set to %r reads %r' % (T, O.stopAtTime))
            it0, t0 = O.iter, O.time
            O.run(); O.wait(); settle(op)
            n = O.iter - it0
            L = advance(n); match(L, op)
            ctx.check(O.time >= T - 1e-9 * O.dt and O.time - O.dt < T + 1e-9 * max(T, O.dt), 'stop-time', lambda: '%s: asked to stop at time %r (step %r), stopped at %r after %d steps' % (where(), T, O.dt, O.time, n))
            O.stopAtTime = 0; O.stopAtIter = 0
        elif op in ('pause', 'insidePause'):
            it0 = O.iter
            if op == 'insidePause':
                k = rng.randint(0, 6); t = rng.choice(active() or [None])
                if t is None: continue
                O.stopAtIter = 0
                HOOK[(t, it0 + k)] = O.pause
                O.run(); O.wait(); settle(op)
                ctx.check(O.iter == it0 + k + 1, 'pause-inside', lambda: '%s: paused inside step %d, stopped at %d' % (where(), it0 + k, O.iter))
            else:
                O.stopAtIter = 0
                O.run(); time.sleep(rng.random() * .006)
                if rng.random() < .3:   # pause and go on without waiting
                    O.pause()
                    if rng.random() < .5: time.sleep(rng.random() * .003)
                    O.run(); time.sleep(rng.random() * .002)
                O.pause(); O.wait(); settle(op)
                ctx.note('steps between run and pause', O.iter - it0)
            match(advance(O.iter - it0), op)
        elif op == 'substep':
            O.subStepping = True
            L = st['tags']; acc = []
            stop = rng.choice((None, None, rng.randint(0, len(L))))
            for p in range(-1, len(L) + 2):    # prologue, engines, bomb, epilogue
                if stop is not None and p > stop: break
                ctx.check(O.subStep == p, 'substep-number', lambda: '%s: sub-step is %d, expected %d' % (where(), O.subStep, p))
                n = len(EV)
                O.step()
                want = [L[p]] if 0 <= p < len(L) and alive.get(L[p], True) else []
                ctx.check([e[0] for e in EV[n:]] == want, 'substep-call', lambda: '%s: sub-step %d called %s, expected %s' % (where(), p, [e[0] for e in EV[n:]], want))
                ctx.observed(('substep', p == -1, p >= len(L), len(L)))
            if stop is not None:
                clock(op + '-middle', expIter, expTime)
                w = rng.choice(('off', 'run', 'runback'))
                hist.append('then-' + w)
                if w == 'off':
                    O.subStepping = False; O.step(); match(advance(1), op + w)
                else:
                    k = rng.randint(1, 4)
                    O.run(k, True) if w == 'run' else (O.run(k), O.wait())
                    match(advance(k), op + w)
            else: match(advance(1), op)
            O.subStepping = False
        elif op == 'engines':
            st['tags'] = newlist(); O.engines = engines(st['tags'])
            ctx.check(len(O.engines) == len(st['tags']) + 1, 'engines-kept', where())
        elif op == 'inside':
            t = rng.choice(active() or [None])
            if t is None: continue
            k = rng.randint(0, 3); nl = newlist() if rng.random() < .8 else []
            E = engines(nl) if nl else []
            def change():
                O.engines = E
                ctx.note('replaced inside a step')
            HOOK[(t, expIter + k)] = change
            L = advance(k + 1)
            st['tags'] = nl
            L += advance(2)
            if rng.random() < .5:
                for _ in range(k + 3): O.step()
            else: O.run(k + 3, True)
            match(L, op if nl else op + '-empty')
            ctx.check(len(O.engines) == len(E), 'engines-inside', lambda: '%s: %d engines, expected %d' % (where(), len(O.engines), len(E)))
            if not nl: st['tags'] = newlist(); O.engines = engines(st['tags'])
        elif op == 'dead':
            if not st['tags']: continue
            i = rng.randrange(len(st['tags'])); t = st['tags'][i]
            alive[t] = not alive.get(t, True); O.engines[i].dead = not alive[t]
        elif op == 'dt':
            O.dt = rng.choice((1e-4, .25, 1., .1, .003))
        elif op in ('bombstep', 'bombrun') and st['tags']:
            # an engine raises: the step ends there, the run stops, the caller gets the error
            E = list(O.engines); B = E[-1]
            at = rng.randint(0, len(st['tags'])); E2 = E[:-1]; E2.insert(at, B); O.engines = E2
            k = 0
            before = [t for t in st['tags'][:at] if alive.get(t, True)]
            if op == 'bombrun' and before:
                k = rng.randint(0, 4); t = before[0]
                def arm(): B.dead = False
                HOOK[(t, O.iter + k)] = arm
            else: B.dead = False
            it0 = O.iter; err = None
            try:
                if op == 'bombstep' : 
                    for _ in range(k + 1): O.step()
                elif rng.random() < .5: O.run(20, True)
                else:
                    O.run(20)
                    if rng.random() < .5:
                        t0 = time.time()
                        while O.running and time.time() - t0 < 60: time.sleep(.001)
                    O.wait()
            except RuntimeError as e: err = str(e)
            ctx.check(err is not None, 'error-lost:' + op, lambda: '%s: an engine raised in step %d and nothing reached the caller' % (where(), it0 + k))
            ctx.check('NewtonIntegrator' in err, 'error-message:' + op, lambda: '%s: the error reads %r' % (where(), err))
            settle(op)
            L = advance(k); L.append((before, expIter))
            match(L, op)
            clock(op, expIter, expTime)
            B.dead = True
            # the interrupted step is taken again (periodic engines that already ran in it do not run twice)
            O.step(); match([([t for t in L if t not in before], it) for L, it in advance(1)], op + '-again')
            O.engines = E
        clock(op, expIter, expTime)
        ctx.check(not HOOK, 'hook-left', lambda: '%s: %s' % (where(), list(HOOK)))
        ctx.observed((op, hist[-2] if len(hist) > 1 else '', len(st['tags']), p12log.SLEEP > 0))
    ctx.note('engine calls matched', len(EV))
    p12log.SLEEP = 0


def spheres(rng, n=12):
    O.materials.append(FrictMat(young=1e6, density=1000, frictionAngle=.5))
    for k in range(n):
        b = utils.sphere(rvec(rng, 1.2), rng.uniform(.2, .5)); b.state.vel = rvec(rng, 1); O.bodies.append(b)
    O.engines = frict_engines(newton=NewtonIntegrator(damping=.1, gravity=(0, 0, -5)), collider=InsertionSortCollider([Bo1_Sphere_Aabb()], verletDist=.05))
    O.dt = 2e-4


def state(): return [tuple(map(float, list(b.state.pos) + list(b.state.vel) + list(b.state.angVel) + [b.state.ori[i] for i in range(4)])) for b in O.bodies] + [(O.iter, O.time)] + [tuple(O.cell.hSize.row(0)) if O.periodic else ()]


@each(25)
def physics(ctx, c):
    """The same simulation advanced in different ways ends in the same state, bit for bit."""
    rng = c.rng
    ref = None
    total = rng.randint(10, 60)
    per = rng.random() < .4
    import random
    for way in ('step', 'run', 'sub', 'pauses', 'mixed'):
        fresh(); r2 = random.Random(c.seed)
        spheres(r2)
        if per: O.periodic = True; O.cell.setBox(6, 6, 6); O.cell.velGrad = Matrix3(.1, .2, 0, 0, -.1, 0, .05, 0, 0)
        ctx.mark('%d %s' % (c.idx, way))
        if way == 'step':
            for _ in range(total): O.step()
        elif way == 'run': O.run(total, True)
        elif way == 'sub':
            O.subStepping = True
            for _ in range(total * 6): O.step()
            O.subStepping = False
        elif way == 'pauses':
            end = total
            O.stopAtIter = end
            n = 0
            while O.iter < end:
                O.run(); time.sleep(rng.random() * .003); O.pause(); O.wait(); n += 1
            ctx.note('pauses', n)
        else:
            left = total
            while left:
                k = min(left, rng.randint(1, 9)); left -= k
                w = rng.randrange(4)
                if w == 0: O.run(k, True)
                elif w == 1:
                    for _ in range(k): O.step()
                elif w == 2:
                    O.subStepping = True
                    for _ in range(6 * k): O.step()
                    O.subStepping = False
                else:   # interrupted in the middle of a step, finished by a run
                    O.subStepping = True
                    for _ in range(rng.randint(1, 5)): O.step()
                    O.run(k, True)
        ctx.check(O.iter == total, 'physics-iter:' + way, 'way %s: %d steps, asked %d' % (way, O.iter, total))
        S = state()
        if ref is None: ref = S
        bad = [i for i in range(len(ref)) if repr(ref[i]) != repr(S[i])]
        ctx.check(not bad, 'physics-state:' + way, lambda: 'after %d steps advanced by "%s" element %d is %s, by single steps %s' % (total, way, bad[0], S[bad[0]], ref[bad[0]]))
        ctx.observed((way, per, total // 10), len(S))


@each(25)
def multiscene(ctx, c):
    """Scenes do not affect each other."""
    rng = c.rng
    O.reset(); p12log.clear()
    import random
    nS = rng.randint(2, 4); use = rng.choice(('numbered', 'another'))
    if use == 'another': nS = 2
    seeds = [rng.randrange(10**6) for _ in range(nS)]
    # references
    want = []
    plan_ = [(rng.randrange(nS), rng.randint(1, 8)) for _ in range(12)]
    for k in range(nS):
        fresh(); spheres(random.Random(seeds[k]), 6 + k)
        for j, n in plan_:
            if j == k: O.run(n, True)
        want.append(state())
    O.reset()
    for k in range(nS):
        if use == 'numbered':
            if k: ctx.check(O.addScene() == k, 'scene-number', '')
            O.switchToScene(k)
        elif k: O.switchScene()
        spheres(random.Random(seeds[k]), 6 + k)
    cur = nS - 1
    for j, n in plan_:
        if use == 'numbered': O.switchToScene(j)
        elif j != cur: O.switchScene()
        cur = j
        ctx.check(len(O.bodies) == 6 + j, 'scene-bodies', lambda: 'scene %d has %d bodies, expected %d' % (j, len(O.bodies), 6 + j))
        if rng.random() < .5: O.run(n, True)
        else:
            for _ in range(n): O.step()
        ctx.observed(('scene', use, nS, j))
    for k in range(nS):
        if use == 'numbered': O.switchToScene(k)
        elif k != cur: O.switchScene(); cur = k
        S = state()
        ctx.check(repr(S) == repr(want[k]), 'scene-state', lambda: 'scene %d of %d (%s), run in turns with the others, differs from the same simulation run alone' % (k, nS, use))
        ctx.observed(('scene end', use, nS, k), len(S))
    if use == 'numbered':
        O.switchToScene(nS + 3)
        ctx.check(O.thisScene == nS - 1, 'scene-missing', 'switching to a missing scene went to %d' % O.thisScene)
    O.reset()


@each(25)
def teardown(ctx, c):
    """Resetting, loading or replacing while the background thread runs neither hangs nor lets it go on."""
    rng = c.rng
    O.reset(); p12log.clear(); p12log.SLEEP = rng.choice((0, 0, 2e-3))
    for r in range(6):
        fresh(); spheres(rng, 8)
        O.engines = O.engines + [logger('t%d' % r)]
        op = rng.choice(('reset', 'load', 'loadTmp', 'resetScene', 'again'))
        ctx.mark('%d %s' % (c.idx, op))
        O.saveTmp('tear', quiet=True)
        O.run(rng.choice((-1, 5, 50)))
        if rng.random() < .7: time.sleep(rng.random() * .006)
        if op == 'reset': O.reset()
        elif op == 'loadTmp': O.loadTmp('tear', quiet=True)
        elif op == 'load': O.loadTmp('tear', quiet=True); O.reload(quiet=True)
        elif op == 'resetScene': O.resetThisScene()
        else: O.pause(); O.wait(); O.run(3, True)
        n = len(EV); it = O.iter
        time.sleep(.004)
        ctx.check(len(EV) == n and O.iter == it and not O.running, 'teardown:' + op, lambda: '%s while running: %d engine calls afterwards' % (op, len(EV) - n))
        if op in ('reset', 'resetScene'): ctx.check(O.iter == 0 and len(O.bodies) == 0, 'teardown-empty:' + op, lambda: '%s left step %d and %d bodies' % (op, O.iter, len(O.bodies)))
        if op in ('load', 'loadTmp'): ctx.check(O.iter == 0 and len(O.bodies) == 8, 'teardown-loaded:' + op, lambda: '%s: step %d, %d bodies' % (op, O.iter, len(O.bodies)))
        fresh(); spheres(rng, 4); O.run(2, True)
        ctx.check(O.iter == 2, 'teardown-after:' + op, 'after %s a new simulation ran %d steps, asked 2' % (op, O.iter))
        ctx.observed((op, p12log.SLEEP > 0), 3)
    p12log.SLEEP = 0
