"""Shared helpers of the monitors (imported inside worker processes, where yade is loaded)."""
import math, os
from vctx import each, Violation, close

try:
    import yade
    from yade import *
    from yade import utils, pack
    from yade.wrapper import *
    from minieigen import *
    from math import *
except ImportError:  # the driver imports the monitor modules only for their plan()
    pass


def fresh():
    """An empty simulation."""
    O.reset()
    O.engines = []
    O.dt = 1e-4
    O.trackEnergy = False


def rvec(rng, a=1.0):
    return Vector3(rng.uniform(-a, a), rng.uniform(-a, a), rng.uniform(-a, a))


def ivec(rng, a=50):
    return Vector3(rng.randint(-a, a), rng.randint(-a, a), rng.randint(-a, a))


def rquat(rng):
    while True:
        q = [rng.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in q))
        if n > 1e-3:
            return Quaternion(q[0] / n, q[1] / n, q[2] / n, q[3] / n)


def vclose(a, b, tol):
    return all(abs(a[i] - b[i]) <= tol for i in range(3))


def vmax(a):
    return max(abs(a[0]), abs(a[1]), abs(a[2]))


def ids():
    return [b.id for b in O.bodies]


def frict_engines(newton=None, collider=None, law=None):
    return [ForceResetter(), collider or InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb()]),
            InteractionLoop([Ig2_Sphere_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom()],
                            [Ip2_FrictMat_FrictMat_FrictPhys()], [law or Law2_ScGeom_FrictPhys_CundallStrack()]),
            newton or NewtonIntegrator(damping=0.0)]
