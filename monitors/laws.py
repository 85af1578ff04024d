"""The contact laws for spheres, with materials that make a small random packing interact."""
from common import *


def _s6(**kw): return lambda: Ig2_Sphere_Sphere_ScGeom6D(**kw)
def _s3(**kw): return lambda: Ig2_Sphere_Sphere_ScGeom(**kw)


def LAWS():
    """name -> (material factory(rng), Ig2 factory, Ip2 factory, Law2 factory(rng), interaction range factor)"""
    L = {}
    fm = lambda cls, **kw: (lambda r: cls(young=r.choice((1e5, 1e6)), poisson=r.uniform(.1, .45), frictionAngle=r.choice((0., .3, .8)), density=r.choice((500, 2600)), **kw))
    L['CundallStrack'] = (fm(FrictMat), _s3(), Ip2_FrictMat_FrictMat_FrictPhys, lambda r: Law2_ScGeom_FrictPhys_CundallStrack(sphericalBodies=r.random() < .5, traceEnergy=r.random() < .3), 1)
    L['CundallStrack6D'] = (fm(FrictMat), _s6(), Ip2_FrictMat_FrictMat_FrictPhys, lambda r: Law2_ScGeom_FrictPhys_CundallStrack(), 1)
    L['Mindlin'] = (fm(FrictMat), _s3(), lambda: Ip2_FrictMat_FrictMat_MindlinPhys(), lambda r: Law2_ScGeom_MindlinPhys_Mindlin(preventGranularRatcheting=r.random() < .5), 1)
    L['MindlinDamped'] = (fm(FrictMat), _s3(), lambda: Ip2_FrictMat_FrictMat_MindlinPhys(en=.5, es=.5), lambda r: Law2_ScGeom_MindlinPhys_Mindlin(includeAdhesion=False), 1)
    L['MindlinMoment'] = (fm(FrictMat), _s3(), lambda: Ip2_FrictMat_FrictMat_MindlinPhys(krot=.3, ktwist=.2, eta=.4, betan=.1, betas=.1), lambda r: Law2_ScGeom_MindlinPhys_Mindlin(includeMoment=True), 1)
    L['MindlinAdhesion'] = (fm(FrictMat), _s3(), lambda: Ip2_FrictMat_FrictMat_MindlinPhys(gamma=.5), lambda r: Law2_ScGeom_MindlinPhys_Mindlin(includeAdhesion=True), 1)
    L['HertzLinearShear'] = (fm(FrictMat), _s3(), lambda: Ip2_FrictMat_FrictMat_MindlinPhys(), lambda r: Law2_ScGeom_MindlinPhys_HertzWithLinearShear(nonLin=r.choice((0, 1, 2))), 1)
    L['MindlinDeresiewitz'] = (fm(FrictMat), _s3(), lambda: Ip2_FrictMat_FrictMat_MindlinPhys(), lambda r: Law2_ScGeom_MindlinPhys_MindlinDeresiewitz(), 1)
    L['CohFrict'] = (fm(CohFrictMat, isCohesive=True, normalCohesion=3e4, shearCohesion=3e4, momentRotationLaw=True, alphaKr=1., alphaKtw=1., etaRoll=.3, etaTwist=.3), _s6(),
                     lambda: Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionNow=True, setCohesionOnNewContacts=True),
                     lambda r: Law2_ScGeom6D_CohFrictPhys_CohesionMoment(useIncrementalForm=r.random() < .5, always_use_moment_law=r.random() < .5, twist_creep=False), 1)
    L['CohFrictBrittle'] = (fm(CohFrictMat, isCohesive=True, normalCohesion=300., shearCohesion=300., momentRotationLaw=True), _s6(),
                            lambda: Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionNow=True), lambda r: Law2_ScGeom6D_CohFrictPhys_CohesionMoment(), 1)
    L['InelastCohFrict'] = (lambda r: InelastCohFrictMat(density=1000, tensionModulus=1e6, compressionModulus=1e6, shearModulus=5e5, alphaKr=2., alphaKtw=2., nuBending=.3, nuTwist=.3, sigmaTension=1e5, sigmaCompression=1e5, shearCohesion=1e5, frictionAngle=.4,
                                                         etaMaxBending=.1, etaMaxTwist=.1), _s6(), Ip2_2xInelastCohFrictMat_InelastCohFrictPhys, lambda r: Law2_ScGeom6D_InelastCohFrictPhys_CohesionMoment(), 1)
    L['ViscEl'] = (lambda r: ViscElMat(kn=2e4, ks=1e4, cn=5., cs=3., frictionAngle=.4, density=1000), _s3(), Ip2_ViscElMat_ViscElMat_ViscElPhys, lambda r: Law2_ScGeom_ViscElPhys_Basic(), 1)
    L['ViscElRoll'] = (lambda r: ViscElMat(tc=.01, en=.7, et=.6, frictionAngle=.4, density=1000, mR=.2, mRtype=1), _s3(), Ip2_ViscElMat_ViscElMat_ViscElPhys, lambda r: Law2_ScGeom_ViscElPhys_Basic(), 1)
    L['ViscElRoll2'] = (lambda r: ViscElMat(tc=.01, en=.7, et=.6, frictionAngle=.4, density=1000, mR=.2, mRtype=2), _s3(), Ip2_ViscElMat_ViscElMat_ViscElPhys, lambda r: Law2_ScGeom_ViscElPhys_Basic(), 1)
    L['ViscElCap'] = (lambda r: ViscElCapMat(kn=2e4, ks=1e4, cn=5., cs=3., frictionAngle=.4, density=1000, Capillar=True, Vb=1e-4, gamma=.072, theta=.2, CapillarType='Willett_numeric'),
                      _s3(), Ip2_ViscElCapMat_ViscElCapMat_ViscElCapPhys, lambda r: Law2_ScGeom_ViscElCapPhys_Basic(), 1)
    L['FrictVisco'] = (lambda r: FrictViscoMat(young=1e6, poisson=.3, frictionAngle=.4, betan=.1, density=1000), _s3(), Ip2_FrictViscoMat_FrictViscoMat_FrictViscoPhys, lambda r: Law2_ScGeom_FrictViscoPhys_CundallStrackVisco(), 1)
    L['ViscoFrict'] = (fm(FrictMat), _s3(), Ip2_FrictMat_FrictMat_ViscoFrictPhys, lambda r: Law2_ScGeom_ViscoFrictPhys_CundallStrack(shearCreep=r.random() < .5, viscosity=100.), 1)
    L['Cpm'] = (lambda r: CpmMat(young=1e6, poisson=.3, frictionAngle=.6, sigmaT=1e5, epsCrackOnset=1e-2, relDuctility=30, density=2000, isoPrestress=0., neverDamage=r.random() < .5), _s3(interactionDetectionFactor=1.3),
                lambda: Ip2_CpmMat_CpmMat_CpmPhys(cohesiveThresholdIter=1000), lambda r: Law2_ScGeom_CpmPhys_Cpm(), 1.3)
    L['JCFpm'] = (lambda r: JCFpmMat(young=1e6, poisson=.3, frictionAngle=.4, tensileStrength=1e4, cohesion=1e4, density=2000), _s3(interactionDetectionFactor=1.2),
                  lambda: Ip2_JCFpmMat_JCFpmMat_JCFpmPhys(cohesiveTresholdIteration=1), lambda r: Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM(), 1.2)
    L['Luding'] = (lambda r: LudingMat(k1=1e4, kp=5e4, kc=1e3, ks=1e4, PhiF=.1, G0=1., frictionAngle=.4, density=1000), _s3(), Ip2_LudingMat_LudingMat_LudingPhys, lambda r: Law2_ScGeom_LudingPhys_Basic(), 1)
    L['Mortar'] = (lambda r: MortarMat(young=1e6, density=1000, tensileStrength=1e5, compressiveStrength=1e6, cohesion=1e5, frictionAngle=.3), _s3(interactionDetectionFactor=1.2), lambda: Ip2_MortarMat_MortarMat_MortarPhys(cohesiveThresholdIter=10**6),
                   lambda r: Law2_ScGeom_MortarPhys_Lourenco(), 1.2)
    L['Bubble'] = (lambda r: BubbleMat(surfaceTension=10., density=1000), _s3(), Ip2_BubbleMat_BubbleMat_BubblePhys, lambda r: Law2_ScGeom_BubblePhys_Bubble(), 1)
    L['L3Geom'] = (fm(FrictMat), lambda: Ig2_Sphere_Sphere_L3Geom(), Ip2_FrictMat_FrictMat_FrictPhys, lambda r: Law2_L3Geom_FrictPhys_ElPerfPl(noSlip=r.random() < .3), 1)
    L['L6Geom'] = (fm(FrictMat), lambda: Ig2_Sphere_Sphere_L6Geom(), Ip2_FrictMat_FrictMat_FrictPhys, lambda r: Law2_L6Geom_FrictPhys_Linear(charLen=.1), 1)
    return L
