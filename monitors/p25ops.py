"""Random histories of calls through the scripting interface: building, editing, running, saving and restoring scenes, with ids and indices that exist, existed or never existed."""
import os, random
import laws
from common import *

OPS = []
CGAL = True


def op(w=1):
    def deco(f):
        OPS.append((f.__name__, f, w))
        return f
    return deco


class World(object):
    """One history: the scene it builds and what it keeps between calls."""
    def __init__(self, rng, d):
        self.rng, self.dir, self.keep, self.saved, self.bad = rng, d, [], [], None
        self.build()

    def build(self):
        rng = self.rng
        fresh()
        self.keep, self.saved = [], []
        LL = laws.LAWS()
        self.law = rng.choice(sorted(set(LL) - {'Cpm'}))   # (its law stops the process on purpose when strains are not numbers)
        matf, ig2, ip2, law, self.range = LL[self.law]
        self.mat = O.materials.append(matf(rng))
        self.frict = isinstance(O.materials[self.mat], FrictMat) and type(O.materials[self.mat]) is FrictMat and 'Geom' not in self.law
        self.per = rng.random() < .3
        if self.per:
            O.periodic = True
            O.cell.hSize = Matrix3(8, rng.choice((0, 1.)), 0, 0, 8, 0, 0, 0, 8)
            if rng.random() < .5: O.cell.velGrad = Matrix3(.1, .2, 0, 0, -.1, 0, 0, 0, 0)
        bo = [Bo1_Sphere_Aabb(aabbEnlargeFactor=self.range), Bo1_Facet_Aabb(), Bo1_Box_Aabb(), Bo1_Wall_Aabb()]
        ig = [ig2()] + ([Ig2_Facet_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom()] if self.frict else [])
        O.engines = [ForceResetter(), InsertionSortCollider(bo, verletDist=rng.choice((0, .1, -.2)), label='collider'), InteractionLoop(ig, [ip2()], [law(rng)], label='loop'),
                     NewtonIntegrator(gravity=(0, 0, -9.81), damping=.1, exactAsphericalRot=rng.random() < .5, label='newton')]
        O.dt = 1e-5
        if rng.random() < .3: O.trackEnergy = True
        self.fill(rng.randint(4, 14))

    def sph(self):
        rng = self.rng
        return utils.sphere(rvec(rng, 1.2) + Vector3(2, 2, 2), rng.uniform(.3, .7), material=self.mat, fixed=rng.random() < .2, mask=rng.choice((1, 3)))

    def fill(self, n):
        rng = self.rng
        for b in [self.sph() for _ in range(n)]: O.bodies.append(b)
        if self.frict and not self.per:
            if rng.random() < .5: O.bodies.append(utils.facet([(-3, -3, .8), (8, -3, .8), (2, 8, .8)], material=self.mat))
            if rng.random() < .3: O.bodies.append(utils.box((2, 2, .3), (2, 2, .3), material=self.mat, fixed=True))
            if rng.random() < .3: O.bodies.append(utils.wall(.9, 2, material=self.mat))

    def id(self, bad=.3):
        """An id: of a body that is there, that was erased, or that never existed."""
        rng = self.rng
        n = len(O.bodies)
        if bad and self.bad: bad = self.bad
        if rng.random() < bad or n == 0: return rng.choice((-1, -2, n, n + 1, n + 7, 10 ** 6, 2 ** 31 - 1, -2 ** 31, 0))
        return rng.randrange(n)

    def live(self, kind=None):
        return [b.id for b in O.bodies if kind is None or isinstance(b.shape, kind)]

    def pick(self, kind=None):
        l = self.live(kind)
        return self.rng.choice(l) if l else None

    def vec(self):
        return rvec(self.rng, self.rng.choice((.1, 1., 100.)))

    def ids(self, n=3, bad=.2):
        return [self.id(bad) for _ in range(self.rng.randint(0, n))]


# ---------------------------------------------------------------- bodies
@op(6)
def step(w):
    for _ in range(w.rng.randint(1, 4)): O.step()


@op(3)
def run(w): O.run(w.rng.randint(1, 5), True)


@op(3)
def append(w): O.bodies.append(w.sph())


@op(1)
def append_many(w): O.bodies.append([w.sph() for _ in range(w.rng.randint(0, 4))])


@op(2)
def append_clumped(w): w.keep.append(O.bodies.appendClumped([w.sph() for _ in range(w.rng.randint(1, 3))], discretization=w.rng.choice((0, 5))))


@op(1)
def insert_at(w):
    n = len(O.bodies)
    O.bodies.insertAtId(w.sph(), w.rng.choice((w.id(0), n, n + 3, -1) if n else (0,)))


@op(5)
def erase(w): O.bodies.erase(w.id(), w.rng.random() < .5)


@op(2)
def getitem(w):
    b = O.bodies[w.id()]
    if b: w.keep.append(b)


@op(2)
def kept_body(w):
    """Bodies held by the script outlive their erasure."""
    for b in w.keep[-4:]:
        if isinstance(b, Body):
            b.state.pos = b.state.pos + w.vec() * .01
            b.isClump, b.isClumpMember, b.isStandalone, b.dynamic, b.mask, b.aspherical
            [i.id1 for i in b.intrs()]
            str(b.shape), b.dict(), b.state.dict()


@op(1)
def body_flags(w):
    i = w.pick()
    if i is None: return
    b = O.bodies[i]
    b.state.blockedDOFs = w.rng.choice(('', 'xyz', 'xyzXYZ', 'zX')); b.dynamic = w.rng.random() < .8; b.bounded = w.rng.random() < .9; b.mask = w.rng.choice((1, 2, 3))
    b.state.vel = w.vec(); b.state.angVel = w.vec() * .1


@op(2)
def clump(w):
    l = [i for i in w.live(Sphere) if O.bodies[i].isStandalone]
    w.rng.shuffle(l)
    O.bodies.clump(l[:w.rng.randint(1, 3)] if w.rng.random() < .7 else w.ids())


@op(1)
def add_to_clump(w):
    O.bodies.addToClump(w.ids(2), w.id())


@op(1)
def release(w): O.bodies.releaseFromClump(w.id(), w.id(), w.rng.choice((0, 4)))


@op(1)
def release_member(w):
    l = [i for i in w.live() if O.bodies[i].isClumpMember]
    if l:
        i = w.rng.choice(l); O.bodies.releaseFromClump(i, O.bodies[i].clumpId)


@op(1)
def add_member(w):
    c = [i for i in w.live() if O.bodies[i].isClump]
    if c: O.bodies.addToClump([w.pick()], w.rng.choice(c))


@op(1)
def update_clumps(w): O.bodies.updateClumpProperties(w.ids(), w.rng.choice((0, 5)))


@op(1)
def delete_member(w):
    c = [i for i in w.live() if O.bodies[i].isClump]
    if c:
        c = O.bodies[w.rng.choice(c)]
        m = [i for i in w.live() if O.bodies[i].clumpId == c.id and i != c.id]
        if m: O.bodies.deleteClumpMember(c, O.bodies[w.rng.choice(m)])


@op(1)
def delete_clump(w):
    c = [i for i in w.live() if O.bodies[i].isClump]
    if c: O.bodies.deleteClumpBody(O.bodies[w.rng.choice(c)])


@op(1)
def replace_by_clumps(w):
    if w.live(Sphere): O.bodies.replaceByClumps([utils.clumpTemplate(relRadii=[1, 1], relPositions=[[1, 0, 0], [-1, 0, 0]])], [w.rng.uniform(0, .5)], 5)


@op(1)
def roundness(w): O.bodies.getRoundness(w.ids())


@op(.3)
def clear_bodies(w): O.bodies.clear()


@op(.3)
def replace_bodies(w):
    O.bodies.replace([w.sph() for _ in range(3)])


@op(1)
def iterate(w):
    for b in O.bodies:
        b.id, b.shape, b.bound, b.material
        if w.rng.random() < .1: O.bodies.erase(w.id(0))
        if w.rng.random() < .05: O.bodies.append(w.sph())


# ---------------------------------------------------------------- interactions
@op(2)
def intr(w): w.keep.append(O.interactions[w.id(), w.id()])


@op(1)
def intr_nth(w):
    O.interactions[w.id()], O.interactions.nth(w.id())


@op(2)
def intr_query(w):
    O.interactions.has(w.id(), w.id()); O.interactions.withBody(w.id()); O.interactions.withBodyAll(w.id()); O.interactions.all(w.rng.random() < .5); O.interactions.countReal(); len(O.interactions)


@op(2)
def intr_erase(w): O.interactions.erase(w.id(), w.id())


@op(1)
def intr_erase_real(w):
    l = [(i.id1, i.id2) for i in O.interactions]
    if l: O.interactions.erase(*w.rng.choice(l))


@op(1)
def intr_walk(w):
    for i in O.interactions:
        w.keep.append(i)
        if w.rng.random() < .2: O.interactions.erase(i.id1, i.id2)
        if w.rng.random() < .05: O.bodies.erase(i.id1)


@op(1)
def intr_kept(w):
    for i in w.keep[-5:]:
        if isinstance(i, Interaction): i.id1, i.id2, i.isReal, i.geom, i.phys, i.cellDist, i.isActive, str(i.dict())


@op(.5)
def intr_clear(w): (O.interactions.clear if w.rng.random() < .5 else O.interactions.eraseNonReal)()


@op(2)
def create(w):
    a, b = w.id(), w.id()
    s = [i for i in w.live(Sphere)]
    if w.rng.random() < .6 and len(s) > 1: a, b = w.rng.sample(s, 2)
    utils.createInteraction(a, b)


# ---------------------------------------------------------------- forces
@op(4)
def forces(w):
    i = w.id()
    F = O.forces
    w.rng.choice((lambda: F.f(i), lambda: F.t(i), lambda: F.f(i, sync=True), lambda: F.t(i, sync=True), lambda: F.m(i), lambda: F.move(i), lambda: F.rot(i), lambda: F.addF(i, w.vec()), lambda: F.addT(i, w.vec()), lambda: F.permF(i), lambda: F.permT(i),
                  lambda: F.setPermF(i, w.vec()), lambda: F.setPermT(i, w.vec()), lambda: F.addMove(i, w.vec() * .01), lambda: F.addRot(i, w.vec() * .01), lambda: F.reset(), lambda: F.reset(False), lambda: F.getPermForceUsed()))()


# ---------------------------------------------------------------- materials, engines, scene
@op(2)
def materials(w):
    r = w.rng
    i = r.choice((-1, 0, 1, 2, -2, -5, 10 ** 6, len(O.materials)))
    r.choice((lambda: O.materials[i], lambda: O.materials['nosuch'], lambda: O.materials.index('nosuch'), lambda: O.materials.append(FrictMat(label='m%d' % r.randrange(3))), lambda: O.materials['m1'].young, lambda: len(O.materials),
              lambda: utils.sphere((0, 0, 0), 1, material=i)))()


@op(1)
def set_material(w):
    b = w.pick()
    if b is not None: O.bodies[b].material = O.materials[w.mat]; O.bodies[b].mat.dict()


@op(1)
def labels(w):
    r = w.rng
    r.choice((lambda: O.labeledEngine('nosuch'), lambda: O.labeledEngine('newton').damping, lambda: O.labeledEngine('collider').numAction, lambda: O.labeledEngine(''), lambda: O.engines[2].lawDispatcher.dispMatrix(), lambda: O.engines[1].boundDispatcher.dispMatrix(),
              lambda: O.engines[1].boundDispatcher.dispFunctor(Wall()), lambda: O.engines[1].boundDispatcher.dispFunctor(Sphere()), lambda: O.engines[2].geomDispatcher.dispFunctor(Sphere(), Sphere()), lambda: O.engines[2].geomDispatcher.dispFunctor(Wall(), Wall()),
              lambda: O.engines[1].dumpBounds(), lambda: O.engines[1].isActivated()))()


@op(1)
def engines(w):
    e = list(O.engines)
    w.keep.append(e)
    r = w.rng.random()
    if r < .3: O.engines = e + [PyRunner(command='pass', iterPeriod=1, initRun=True)]
    elif r < .5: O.engines = [x for x in e if not isinstance(x, PyRunner)]
    elif r < .6: O.engines = []; O.step(); O.engines = e
    elif r < .8:
        O.engines = e[:1] + [InsertionSortCollider([Bo1_Sphere_Aabb(aabbEnlargeFactor=w.range), Bo1_Facet_Aabb(), Bo1_Box_Aabb(), Bo1_Wall_Aabb()], label='collider')] + e[2:]
    else: O.engines = e


@op(1)
def runner(w):
    """Scripts run inside a step edit the scene."""
    import builtins
    builtins.p25w = w
    cmd = w.rng.choice(('O.bodies.append(p25w.sph())', 'O.bodies.erase(p25w.id())', 'O.interactions.erase(p25w.id(),p25w.id())', 'O.interactions.clear()', 'O.forces.addF(p25w.id(),(0,0,1))', 'utils.unbalancedForce()', 'O.pause()', 'O.saveTmp("r")', 'nosuchname'))
    O.engines = list(O.engines) + [PyRunner(command='import builtins; from yade import *; p25w=builtins.p25w; ' + cmd, iterPeriod=1, initRun=True)]
    O.step(); O.step()
    O.engines = list(O.engines)[:-1]


@op(2)
def save_tmp(w):
    m = w.rng.choice(('', 'a', 'b'))
    w.rng.choice((lambda: O.saveTmp(m), lambda: O.loadTmp(m), lambda: O.loadTmp('nosuch'), lambda: O.lsTmp(), lambda: O.tmpToString(m), lambda: O.tmpToString('nosuch')))()


@op(1)
def save(w):
    f = os.path.join(w.dir, 's' + w.rng.choice(('.yade', '.yade.gz', '.yade.bz2', '.yade.bin', '.xml')))
    O.save(f); w.saved.append(f)
    if w.rng.random() < .5: O.load(f)


@op(.5)
def load_bad(w):
    r = w.rng.random()
    f = os.path.join(w.dir, 'bad.yade')
    if r < .4 and w.saved:
        f = os.path.join(w.dir, 'bad' + w.saved[-1][w.saved[-1].index('.'):])
        d = open(w.saved[-1], 'rb').read(); open(f, 'wb').write(d[:len(d) // 2])
        if f.endswith('.bin'): return
    elif r < .7: open(f, 'w').write('<nonsense/>')
    O.load(f)


@op(.3)
def reset(w):
    w.keep = w.keep[-10:] + [list(O.engines), O.cell, O.energy]
    w.rng.choice((O.reset, O.resetThisScene, lambda: O.switchScene()))()


@op(.6)
def rebuild(w): w.build()


@op(1)
def kept_engines(w):
    for e in w.keep[-4:]:
        if isinstance(e, list):
            for x in e: x.dict(), x.dead, x.execCount, str(x)
        elif isinstance(e, Cell): e.hSize, e.volume, e.trsf


@op(1)
def cell(w):
    r = w.rng
    if not O.periodic: return
    p = w.vec()
    r.choice((lambda: O.cell.wrap(p), lambda: O.cell.wrapPt(p), lambda: O.cell.shearPt(p), lambda: O.cell.unshearPt(p), lambda: O.cell.setBox(8, 8, 8), lambda: setattr(O.cell, 'velGrad', Matrix3(.1, 0, .1, 0, 0, 0, 0, 0, .1)), lambda: setattr(O.cell, 'velGrad', Matrix3.Zero),
              lambda: O.cell.getDefGrad(), lambda: O.cell.getPolarDecOfDefGrad(), lambda: O.cell.getLCauchyGreenDef(), lambda: utils.flipCell()))()


@op(1)
def periodic(w):
    if not w.frict or w.live(Facet) or w.live(Box) or w.live(Wall) or w.range > 1: return
    O.periodic = not O.periodic
    if O.periodic: O.cell.setBox(9, 9, 9)
    w.per = O.periodic


@op(1)
def clock(w):
    r = w.rng
    r.choice((lambda: O.time, lambda: O.iter, lambda: O.resetTime(), lambda: setattr(O, 'dt', r.choice((1e-5, 1e-6))), lambda: O.speed, lambda: O.realtime, lambda: O.subStep, lambda: setattr(O, 'stopAtIter', O.iter + r.randint(0, 3)),
              lambda: setattr(O, 'trackEnergy', r.random() < .5), lambda: O.energy.items(), lambda: O.energy.total(), lambda: O.energy['nosuch'], lambda: O.energy.clear(), lambda: setattr(O, 'dynDt', True), lambda: O.tags['author'], lambda: O.tags['nosuch'],
              lambda: O.tags.__setitem__('x', 'y'), lambda: O.pause(), lambda: O.wait(), lambda: O.miscParams, lambda: O.selectedBody, lambda: setattr(O, 'selectedBody', w.id())))()


@op(1)
def substep(w):
    O.subStepping = True
    for _ in range(w.rng.randint(1, 7)):
        O.step()
        if w.rng.random() < .2: O.bodies.erase(w.id())
        if w.rng.random() < .2: O.interactions.erase(w.id(), w.id())
    O.subStepping = False
    O.step()


# ---------------------------------------------------------------- measures and helpers
@op(3)
def measures(w):
    r = w.rng
    n = r.randint(1, 12)
    r.choice((lambda: utils.getStress(), lambda: utils.getStress(r.choice((0., 1.))), lambda: utils.bodyStressTensors(), lambda: utils.getDynamicStress(), lambda: utils.getTotalDynamicStress(), lambda: utils.normalShearStressTensors(), lambda: utils.fabricTensor(),
              lambda: utils.fabricTensor(0., True), lambda: utils.unbalancedForce(), lambda: utils.unbalancedForce(True), lambda: utils.kineticEnergy(), lambda: utils.kineticEnergy(True), lambda: utils.momentum(), lambda: utils.angularMomentum(),
              lambda: utils.porosity(), lambda: utils.porosity(1.), lambda: utils.voxelPorosity(50, Vector3(0, 0, 0), Vector3(4, 4, 4)), lambda: utils.aabbExtrema(), lambda: utils.aabbExtrema(.2, True), lambda: utils.PWaveTimeStep(), lambda: utils.RayleighWaveTimeStep(),
              lambda: utils.avgNumInteractions(), lambda: utils.avgNumInteractions(.1, True, True), lambda: utils.interactionAnglesHistogram(r.choice((0, 1, 2)), 0, n), lambda: utils.interactionAnglesHistogram(r.choice((0, 1, 2)), r.choice((1, 2)), n, ((0, 0, 0), (3, 3, 3))),
              lambda: utils.bodyNumInteractionsHistogram(((0, 0, 0), (3, 3, 3))), lambda: utils.numIntrsOfEachBody(), lambda: utils.intrsOfEachBody(), lambda: utils.maxOverlapRatio(), lambda: utils.getSpheresVolume(), lambda: utils.getSpheresMass(1),
              lambda: utils.getDepthProfiles(1., n, .3, r.uniform(-1, 3), r.random() < .5, .5, r.choice((0, 1, 2))), lambda: utils.getDepthProfiles_center(1., n, .3, r.uniform(-1, 3), r.random() < .5, .5), lambda: utils.getStressProfile_contact(1., n, .3, r.uniform(-1, 3)),
              lambda: utils.getStressProfile(1., n, .3, r.uniform(-1, 3), [0.] * n, [0.] * n, [0.] * n), lambda: utils.getSpheresVolume2D(), lambda: utils.voidratio2D(1.), lambda: utils.getStressAndTangent(1.), lambda: utils.negPosExtremeIds(r.choice((0, 1, 2)), 1.5),
              lambda: utils.approxSectionArea(1., r.choice((0, 1, 2))), lambda: utils.coordsAndDisplacements(r.choice((0, 1, 2))), lambda: utils.forcesOnPlane((1, 1, 1), (0, 0, 1)), lambda: utils.forcesOnCoordPlane(1., 2), lambda: utils.totalForceInVolume(),
              lambda: utils.psd(n), lambda: utils.aabbDim(), lambda: utils.perpendicularArea(1), lambda: utils.uniaxialTestFeatures(axis=1), lambda: utils.setRefSe3(), lambda: utils.calm(), lambda: utils.wireAll(), lambda: utils.highlightNone()))()


@op(3)
def measures_of(w):
    """Helpers that take ids."""
    r = w.rng
    i = w.id()
    v = w.vec()
    r.choice((lambda: utils.sumForces(w.ids(), v), lambda: utils.sumTorques(w.ids(), v, v), lambda: utils.sumFacetNormalForces(w.ids()), lambda: utils.getBodyIdsContacts(i), lambda: utils.shiftBodies(w.ids(), v * .001), lambda: utils.growParticle(i, 1.01),
              lambda: utils.setBodyPosition(i, v, r.choice(('xyz', 'z', 'q'))), lambda: utils.setBodyVelocity(i, v, r.choice(('xyz', 'x', ''))), lambda: utils.setBodyOrientation(i, Quaternion((1, 0, 0), .3)), lambda: utils.setBodyAngularVelocity(i, v * .1),
              lambda: utils.setBodyColor(i, (1, 0, 0)), lambda: Interaction(w.id(), w.id()), lambda: utils.growParticles(1.001), lambda: w.frict and utils.setContactFriction(.3)))()


@op(1)
def geometry(w):
    r = w.rng
    p = [rvec(r) for _ in range(r.choice((0, 2, 3, 4, 5)))]
    r.choice((lambda: utils.TetrahedronVolume(p), lambda: utils.TetrahedronSignedVolume(p), lambda: utils.TetrahedronInertiaTensor(p), lambda: utils.TetrahedronCentralInertiaTensor(p), 
              lambda: utils.inscribedCircleCenter(rvec(r), rvec(r), rvec(r)), lambda: utils.spiralProject(rvec(r), .3, r.choice((0, 1, 2))), lambda: utils.ptInAABB(rvec(r), rvec(r), rvec(r)), lambda: utils.facet(p), lambda: utils.scalarOnColorScale(.3, 0., 1.)))()


@op(1)
def probe(w):
    if isinstance(O.engines[1], InsertionSortCollider): O.engines[1].probeBoundingVolume(Aabb(min=(0, 0, 0), max=(3, 3, 3)))
    b = w.pick()
    if b is not None and O.bodies[b].bound: O.bodies[b].bound.min, O.bodies[b].bound.max


@op(1)
def packs(w):
    r = w.rng
    sp = pack.SpherePack()
    n = sp.makeCloud((0, 0, 0), (3, 3, 3), rMean=.4, rRelFuzz=r.choice((0, .3)), num=r.choice((-1, 5)), periodic=r.random() < .3, seed=1)
    r.choice((lambda: sp[r.choice((-1, 0, n, n + 5))], lambda: sp.psd(r.randint(1, 5)), lambda: sp.rotate((1, 0, 0), .3), lambda: sp.scale(2.), lambda: sp.dim(), lambda: sp.center(), lambda: sp.aabb(), lambda: sp.toList(), lambda: sp.relDensity(), lambda: sp.cellRepeat((2, 1, 1)),
              lambda: sp.fromList([((0, 0, 0), 1.)]), lambda: sp.toSimulation(material=w.mat), lambda: sp.makeClumpCloud((0, 0, 0), (3, 3, 3), [pack.SpherePack([((0, 0, 0), .2), ((.2, 0, 0), .2)])], num=4, seed=1), lambda: sp.getClumps(), lambda: sp.hasClumps(),
              lambda: sp.particleSD((0, 0, 0), (3, 3, 3), .2, False, '', 5, [.2, .4], [.3, .7]), lambda: sp.load('/nosuch/file')))()


@op(1)
def objects(w):
    """Construct any class with any of its attributes left unset, and look at it."""
    r = w.rng
    import yade
    names = [n for top in ('Shape', 'Material', 'State', 'IGeom', 'IPhys', 'Bound', 'Engine', 'Functor', 'Dispatcher') for n in yade.system.childClasses(top)]
    n = r.choice(sorted(names))
    o = getattr(yade.wrapper, n)()
    o.dict()
    if hasattr(o, 'dispHierarchy'): o.dispHierarchy(True), o.dispIndex
    w.keep.append(o)


# ---------------------------------------------------------------- engines with ids, tessellations, files
def with_engine(w, *ee):
    """Runs the engines for a step or two inside the loop, then takes them out again."""
    e = list(O.engines)
    try:
        O.engines = e[:-1] + list(ee) + e[-1:]
        O.step(); O.step()
    finally:
        O.engines = e


@op(2)
def imposed(w):
    r = w.rng
    i = w.ids(3, .4)
    k = dict(ids=i)
    with_engine(w, r.choice((lambda: TranslationEngine(velocity=1., translationAxis=(1, 0, 0), **k), lambda: RotationEngine(angularVelocity=1., rotateAroundZero=r.random() < .5, zeroPoint=w.vec(), **k), lambda: HelixEngine(angularVelocity=1., linearVelocity=.1, **k),
                             lambda: HarmonicMotionEngine(A=(.1, 0, 0), f=(1, 0, 0), **k), lambda: HarmonicRotationEngine(A=.1, f=1., **k), lambda: StepDisplacer(mov=(1e-3, 0, 0), **k), lambda: StepDisplacer(mov=(1e-3, 0, 0), setVelocities=True, **k),
                             lambda: ForceEngine(force=(1, 0, 0), **k), lambda: TorqueEngine(moment=(1, 0, 0), **k), lambda: InterpolatingDirectedForceEngine(times=[0, 1], magnitudes=[0, 1], **k), lambda: RadialForceEngine(fNorm=1., **k), lambda: DragEngine(Rho=1., Cd=.4, **k),
                             lambda: LinearDragEngine(nu=1., **k), lambda: AxialGravityEngine(acceleration=1.), lambda: GravityEngine(gravity=(0, 0, -1), mask=r.choice((0, 1, 2))), lambda: CentralGravityEngine(centralBody=w.id(), accel=1.), lambda: ServoPIDController(maxVelocity=1., target=1., translationAxis=(1, 0, 0), **k),
                             lambda: CombinedKinematicEngine(ids=i) , lambda: InterpolatingHelixEngine(times=[0, 1], angularVelocities=[0, 1], **k), lambda: HydroForceEngine(**k), lambda: KinemSimpleShearBox() if False else AxialGravityEngine(acceleration=1.)))())


@op(1)
def recorders(w):
    r = w.rng
    f = os.path.join(w.dir, 'rec')
    with_engine(w, r.choice((lambda: ForceRecorder(ids=w.ids(3, .4), file=f, iterPeriod=1, initRun=True), lambda: TorqueRecorder(ids=w.ids(3, .4), file=f, iterPeriod=1, initRun=True, rotationAxis=(1, 0, 0), zeroPoint=(0, 0, 0)),
                             lambda: VTKRecorder(fileName=f, recorders=r.sample(['spheres', 'velocity', 'facets', 'boxes', 'colors', 'mass', 'ids', 'mask', 'clumpId', 'materialId', 'intr', 'force', 'coordNumber'] + (['stress', 'bstresses'] if w.frict else []), r.randint(1, 5)), iterPeriod=1, initRun=True, mask=r.choice((0, 1, 2))),
                             lambda: VTKRecorder(fileName=f, recorders=['all'] if w.frict else ['spheres', 'velocity'], iterPeriod=1, initRun=True), lambda: DomainLimiter(lo=(0, 0, 0), hi=(3, 3, 3), iterPeriod=1, initRun=True), lambda: GlobalStiffnessTimeStepper(timestepSafetyCoefficient=.1, active=w.frict),
                             lambda: BoxFactory(center=(2, 2, 5), extents=(1, 1, 1), rMin=.1, rMax=.2, vMin=0, vMax=.1, vAngle=.1, normal=(0, 0, -1), maxParticles=3, materialId=r.choice((w.mat, 0)), massFlowRate=1e3, label='f'),
                             lambda: CircularFactory(center=(2, 2, 5), radius=1, length=1, rMin=.1, rMax=.2, vMin=0, vMax=.1, vAngle=.1, normal=(0, 0, -1), maxParticles=3, materialId=w.mat, massFlowRate=1e3, label='f'), lambda: FileGenerator() if False else GlobalStiffnessTimeStepper(active=w.frict)))())
    if O.dt > 1e-3 or not O.dt > 0: O.dt = 1e-5


@op(1)
def stress_control(w):
    r = w.rng
    b = [w.id(.3) for _ in range(6)]
    if O.periodic: e = r.choice((lambda: PeriTriaxController(goal=(-1, -1, -1), stressMask=7, maxStrainRate=(1e-3,) * 3, dynCell=r.random() < .5, mass=1.), lambda: PeriIsoCompressor(charLen=1., stresses=[-1e3], doneHook='')))()
    else: e = r.choice((lambda: TriaxialStressController(wall_bottom_id=b[0], wall_top_id=b[1], wall_left_id=b[2], wall_right_id=b[3], wall_back_id=b[4], wall_front_id=b[5], internalCompaction=r.random() < .5),
                        lambda: UniaxialStrainer(strainRate=.1, axis=r.choice((0, 1, 2)), posIds=w.ids(3, .2), negIds=w.ids(3, .2), asymmetry=r.choice((-1, 0, 1)), blockDisplacements=r.random() < .5)))()
    if isinstance(e, TriaxialStressController) and any(not 0 <= x < len(O.bodies) for x in b): return
    if isinstance(e, TriaxialStressController): return
    with_engine(w, e)
    w.keep.append(e)


@op(1)
def tess(w):
    r = w.rng
    if len(w.live(Sphere)) < 5 or not CGAL: return
    t = TesselationWrapper()
    t.triangulate(); t.computeVolumes(); t.volume(abs(w.id())); t.volume(w.id(0))


@op(1)
def files(w):
    r = w.rng
    from yade import export, ymport
    f = os.path.join(w.dir, 'exp')
    r.choice((lambda: export.text(f), lambda: export.textExt(f, r.choice(('x_y_z_r', 'x_y_z_r_matId', 'x_y_z_r_attrs')), attrs=['b.state.vel'], mask=r.choice((-1, 1))), lambda: export.textClumps(f), lambda: (export.text(f), ymport.text(f, material=w.mat)),
              lambda: export.VTKWriter(f).snapshot() if hasattr(export, 'VTKWriter') else None, lambda: export.VTKExporter(f).exportSpheres(), lambda: export.VTKExporter(f).exportInteractions(what=dict(a='i.geom.penetrationDepth')), lambda: ymport.text('/nosuch/file'), lambda: ymport.stl('/nosuch/file'),
              lambda: ymport.textExt(f, 'x_y_z_r')))()


@op(1)
def grids(w):
    """Polyhedra and deformable elements with nodes that may not exist."""
    r = w.rng
    p, q = rvec(r, 1.), rvec(r, 1.) + Vector3(2, 0, 0)
    m = O.materials.append(CohFrictMat())
    def polyh():
        from yade import polyhedra_utils as pu
        b = pu.polyhedra(PolyhedraMat(), v=[tuple(rvec(r)) for _ in range(r.choice((4, 6, 9)))])
        b.shape.v, b.shape.GetVolume(), b.shape.GetCentroid(), b.shape.GetSurfaceTriangulation(), b.shape.GetInertia(), b.shape.GetOri()
    def deform():
        d = DeformableElement()
        n = utils.sphere(p, .1)
        d.addNode(n) if hasattr(d, 'addNode') else None
        w.keep.append((d, n))
    r.choice((polyh, deform) if CGAL else (deform,))()


@op(1)
def mats_match(w):
    r = w.rng
    mm = MatchMaker(matches=[(0, 1, .3)], algo=r.choice(('avg', 'min', 'max', 'harmAvg')))
    mm(r.choice((0, 5, -1)), r.choice((1, 7)), .1, .2); mm.computeFallback(.1, .2)
    MatchMaker(algo='val', val=.3)(3, 4)
    MatchMaker(algo='nosuch')


def history(w, n, trace, only=None, bad=None):
    """Runs n random calls; trace(name, result) sees each one."""
    r = w.rng
    sel = [o for o in OPS if only is None or o[0] in only]
    w.bad = bad
    names = [o[0] for o in sel]; wt = [o[2] for o in sel]; fn = dict((o[0], o[1]) for o in OPS)
    for _ in range(n):
        k = r.choices(names, wt)[0]
        trace(k, None)
        try: fn[k](w); res = 'ok'
        except Exception as e: res = type(e).__name__
        trace(k, res)
        bad = any(not (abs(x) < 1e6) for b in O.bodies for x in b.state.pos) or len(O.bodies) > 90
        if bad or not O.engines or not w.live():
            trace('rebuild', None); w.build(); trace('rebuild', 'ok')
