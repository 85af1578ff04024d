"""Hertzian, viscoelastic and cohesive contact laws against independent models, driven pairs and free collisions."""
from common import *
import P13
from P13 import Path

RULE = ('a case drives a pair of spheres of random sizes and materials through a random loading path (approach, tension, shear, bending, twist, separation) under one law; every step compares normal and shear force, moments, '
        'bond state and existence of the contact with an independent model of the law; collisions compare the rebound with a finely integrated one; distinct = (law, options, state of the bond, sliding, damping)')
ASSUMPTIONS = ['the viscous part of the shear force is added to the elastic part while sticking, as documented: the Coulomb limit is that of the elastic part',
               'rebound velocities are compared with the resolution of the time step',
               'loads within rounding of a strength are not judged']
EPS = 1e-9


def plan(tier):
    k = 1 if tier == 'quick' else 12
    J = []
    for law in ('mindlin', 'hertzlin', 'viscel', 'cohfrict', 'jcfpm'):
        J += [dict(func='model', name=law, args=dict(n=130 * k, law=law)), dict(func='model', name=law + '-periodic', args=dict(n=60 * k, law=law, periodic=1))]
    J += [dict(func='rebound', name='rebound-%s' % l, args=dict(n=25 * k, law=l)) for l in ('viscel', 'mindlin')]
    J += [dict(func='bonds', name='bonds', args=dict(n=6 * k)), dict(func='bonds', name='bonds-t4', threads=4, args=dict(n=6 * k))]
    J += [dict(func='observer', name='observer', args=dict(n=60 * k))]
    return J


def hm2(a, b): return 2 * a * b / (a + b) if a and b else 0.


class Law:
    """Common part: geometry, rotation of history vectors, incident velocity."""

    def __init__(self, rng, r1, r2):
        self.rng, self.r1, self.r2 = rng, r1, r2
        self.n = None
        self.C = None
        self.opt = ()
        self.never = False
        self.factor = 1.

    def rot(self, v, K):
        v = v - v.cross(K['no'].cross(K['n']))
        return v - v.cross(K['no'] * (.5 * K['dt'] * K['no'].dot(K['w1'] + K['w2'])))

    def vinc(self, K, ratchet):
        n, un, r1, r2 = K['n'], K['un'], self.r1, self.r2
        if ratchet:
            al = (r1 + r2) / (r1 + r2 - un)
            return (K['v2'] - K['v1'] + K['sv']) * al - r2 * K['w2'].cross(n) - r1 * K['w1'].cross(n)
        b1 = n * (r1 - un / 2); b2 = n * (-(r2 - un / 2))
        return K['v2'] + K['sv'] + K['w2'].cross(b2) - K['v1'] - K['w1'].cross(b1)

    def evaluate(self, K):
        """K: kinematics. Returns None (no contact) or dict(F=force on body 1, T1=, T2=, plus fields to compare with phys)."""
        n, un = K['n'], K['un']
        if self.C is None:
            if un < 0 and not (self.factor != 1 and (self.r1 + self.r2 - un) <= self.factor * (self.r1 + self.r2)): return None
            K['no'] = n
            K['new'] = True
            self.C = self.start(K)
        else:
            K['no'] = self.n; K['new'] = False
        self.n = n
        r = self.step(self.C, K)
        if r is None: self.C = None
        return r

    def torques(self, F, K, m=Vector3(0, 0, 0) if 'Vector3' in globals() else None):
        n, un = K['n'], K['un']
        return (self.r1 - un / 2) * n.cross(F), (self.r2 - un / 2) * n.cross(F)


class Mindlin(Law):
    Z = property(lambda s: Vector3(0, 0, 0))

    def setup(self):
        rng = self.rng
        self.m = [dict(young=10**rng.uniform(5, 9), poisson=rng.uniform(.05, .5), frictionAngle=rng.choice((0, .2, rng.uniform(0, 1))), density=1000) for _ in range(2)]
        self.damp = rng.choice(('none', 'beta', 'betas', 'en'))
        self.adh = rng.random() < .35
        self.mom = rng.random() < .4
        self.gamma = 10**rng.uniform(-2, 3) if self.adh else 0.
        self.eta = rng.choice((0, .1, .5)); self.kr = rng.choice((0, 10**rng.uniform(0, 4))); self.ktw = rng.choice((0, 10**rng.uniform(0, 4)))
        self.ratchet = rng.random() < .5
        self.never = rng.random() < .3
        self.bn = rng.uniform(.05, 1); self.bs = rng.uniform(.05, 1); self.en = rng.uniform(.2, .95)
        kw = {}
        if self.damp == 'beta': kw = dict(betan=MatchMaker(algo='val', val=self.bn))
        elif self.damp == 'betas': kw = dict(betan=MatchMaker(algo='val', val=self.bn), betas=MatchMaker(algo='val', val=self.bs))
        elif self.damp == 'en': kw = dict(en=MatchMaker(algo='val', val=self.en))
        ip = Ip2_FrictMat_FrictMat_MindlinPhys(gamma=self.gamma, eta=self.eta, krot=self.kr, ktwist=self.ktw, **kw)
        law = Law2_ScGeom_MindlinPhys_Mindlin(includeAdhesion=self.adh, includeMoment=self.mom, preventGranularRatcheting=self.ratchet, neverErase=self.never, calcEnergy=rng.random() < .3)
        self.opt = (self.damp, self.adh, self.mom, self.ratchet, self.never)
        return [FrictMat(**m) for m in self.m], [Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=rng.random() < .5)], ip, law

    def consts(self):
        a, b = self.m
        Ea, Eb, va, vb = a['young'], b['young'], a['poisson'], b['poisson']
        E = 1 / ((1 - va**2) / Ea + (1 - vb**2) / Eb)
        R = self.r1 * self.r2 / (self.r1 + self.r2)
        G = (Ea / (2 * (1 + va)) + Eb / (2 * (1 + vb))) / 2
        return E, R, 4 / 3. * E * sqrt(R), 4 * sqrt(R) * G / (2 - (va + vb) / 2), math.tan(min(a['frictionAngle'], b['frictionAngle']))

    def start(self, K):
        E, R, kno, kso, tan = self.consts()
        lg = log(self.en)
        return dict(kno=kno, kso=kso, tan=tan, Fs=self.Z, bend=self.Z, twist=self.Z, adh=4 * pi * R * self.gamma,
                    alpha=-lg * sqrt(5 * kno) / sqrt(lg**2 + pi**2) if self.damp == 'en' else 0.)

    def step(self, C, K):
        n, un, dt = K['n'], K['un'], K['dt']
        if un < 0:
            if self.never: return dict(F=self.Z, T1=self.Z, T2=self.Z, normalForce=self.Z, shearForce=self.Z, flag='gap', elastic=0)
            return None
        if K['new']: turn = lambda v: v
        else: turn = lambda v: self.rot(v, K)
        Fn = C['kno'] * un**1.5 - (C['adh'] if self.adh else 0)
        kn = 1.5 * C['kno'] * sqrt(un); ks = C['kso'] * sqrt(un)
        v = self.vinc(K, self.ratchet)
        vn = n.dot(v); vs = v - n * vn
        Fs = turn(C['Fs']) - vs * (ks * dt)
        cn = cs = 0.
        mb = K['mbar']
        if self.damp in ('beta', 'betas'):
            cn = self.bn * 2 * sqrt(mb * kn); cs = (self.bs if self.damp == 'betas' else self.bn) * 2 * sqrt(mb * ks)
        elif self.damp == 'en': cn = cs = C['alpha'] * sqrt(mb) * un**.25
        tot = Fn - cn * vn
        if cn or cs:
            if not self.adh or C['adh'] == 0: tot = max(tot, 0.)
            elif tot < 0 and abs(cn * vn) > C['adh']: tot = Fn - math.copysign(C['adh'], cn * vn)
        lim = C['tan'] * (abs(tot) + (C['adh'] if self.adh else 0))
        sl = Fs.norm() > lim
        K['scale'] = Fs.norm() + abs(Fn) + abs(cn * vn) + cs * vs.norm()
        amb = abs(Fs.norm() - lim) <= 1e-9 * (lim + Fs.norm()) and cs * vs.norm() > 0
        if sl: Fs = Fs * (lim / Fs.norm())
        C['Fs'] = Fs
        S = Fs if sl else Fs - vs * cs
        F = n * (-tot) - S
        T1, T2 = self.torques(F, K)
        flag = 'slide' if sl else 'stick'
        if self.mom:
            w = K['w2'] - K['w1']
            wt = n * n.dot(w)
            C['bend'] = turn(C['bend']) - (w - wt) * (self.kr * dt)
            C['twist'] = turn(C['twist']) - wt * (self.ktw * dt)
            mx = self.eta * (self.r1 + self.r2) / 2 * abs(tot)
            if mx > 0 and C['bend'].norm() > mx:
                C['bend'] = C['bend'] * (mx / C['bend'].norm()); flag += '-roll'
            T1 = T1 - C['bend'] - C['twist']; T2 = T2 + C['bend'] + C['twist']
            K['mscale'] = C['bend'].norm() + C['twist'].norm()
        return dict(F=F, T1=T1, T2=T2, normalForce=n * tot, shearForce=S, flag=flag, amb=amb, elastic=Fs.norm() - lim)


class HertzLin(Mindlin):
    def setup(self):
        rng = self.rng
        self.m = [dict(young=10**rng.uniform(5, 9), poisson=rng.uniform(.05, .5), frictionAngle=rng.choice((0, .2, rng.uniform(0, 1))), density=1000) for _ in range(2)]
        self.damp = 'none'; self.gamma = 0; self.en = .5; self.adh = False
        self.never = rng.random() < .3
        self.nl = rng.randint(0, 3)
        self.gr = rng.random() < .5
        self.opt = (self.nl, self.gr, self.never)
        return [FrictMat(**m) for m in self.m], [Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=self.gr)], Ip2_FrictMat_FrictMat_MindlinPhys(), Law2_ScGeom_MindlinPhys_HertzWithLinearShear(nonLin=self.nl, neverErase=self.never)

    def step(self, C, K):
        n, un, dt = K['n'], K['un'], K['dt']
        if un < 0:
            if self.never:
                C['Fs'] = self.Z
                return dict(F=self.Z, T1=self.Z, T2=self.Z, normalForce=self.Z, shearForce=self.Z, flag='gap', elastic=0)
            return None
        Fn = C['kno'] * un**1.5
        v = self.vinc(K, self.nl > 2 if self.nl > 1 else self.gr)
        vs = v - n * n.dot(v)
        Fs = C['Fs'] if K['new'] else self.rot(C['Fs'], K)
        Fs = Fs - vs * (dt * C['kso'] * (sqrt(un) if self.nl > 0 else 1))
        lim = Fn * C['tan']; sl = Fs.norm() > lim
        K['scale'] = Fn + Fs.norm()
        if sl: Fs = Fs * (lim / Fs.norm())
        C['Fs'] = Fs
        F = n * (-Fn) - Fs
        T1, T2 = self.torques(F, K)
        return dict(F=F, T1=T1, T2=T2, normalForce=n * Fn, shearForce=Fs, flag='slide' if sl else 'stick', elastic=Fs.norm() - lim)


class ViscEl(Law):
    Z = property(lambda s: Vector3(0, 0, 0))

    def setup(self):
        rng = self.rng
        self.mode = rng.choice(('tc', 'kn', 'young', 'young-cn'))
        self.mR = rng.choice((0, .1)); self.mt = rng.choice((1, 2))
        self.m = []
        for _ in range(2):
            d = dict(frictionAngle=rng.choice((0, .3, rng.uniform(0, 1))), density=1000, mR=self.mR, mRtype=self.mt)
            if self.mode == 'tc': d.update(tc=10**rng.uniform(-3, -1), en=rng.uniform(.1, .99), et=rng.uniform(.1, .99))
            elif self.mode == 'kn': d.update(kn=10**rng.uniform(3, 6), cn=10**rng.uniform(0, 3), ks=10**rng.uniform(3, 6), cs=10**rng.uniform(0, 3))
            else: d.update(young=10**rng.uniform(4, 7), poisson=rng.uniform(.1, .5))
            if self.mode == 'young-cn': d.update(cn=10**rng.uniform(0, 3), cs=10**rng.uniform(0, 3))
            self.m.append(d)
        self.opt = (self.mode, self.mR > 0, self.mt)
        return [ViscElMat(**m) for m in self.m], [Ig2_Sphere_Sphere_ScGeom()], Ip2_ViscElMat_ViscElMat_ViscElPhys(), Law2_ScGeom_ViscElPhys_Basic()

    def start(self, K):
        a, b = self.m
        m1, m2 = K['mass']
        mr = m1 * m2 / (m1 + m2)
        if self.mode == 'tc':
            Tc, En, Et = [(a[x] + b[x]) / 2 for x in ('tc', 'en', 'et')]
            kn = (pi**2 + log(En)**2) / Tc**2 * mr; cn = -2 / Tc * log(En) * mr
            ks = 2 / 7. * (pi**2 + log(Et)**2) / Tc**2 * mr; cs = -4 / 7. / Tc * log(Et) * mr
        else:
            h = lambda x, y: 1 / (1 / x + 1 / y)
            if self.mode == 'kn': kn, ks = h(a['kn'], b['kn']), h(a['ks'], b['ks'])
            else: kn = h(2 * a['young'] * self.r1, 2 * b['young'] * self.r2); ks = h(2 * a['young'] * self.r1 * a['poisson'], 2 * b['young'] * self.r2 * b['poisson'])
            cn, cs = (0, 0) if self.mode == 'young' else (h(a['cn'], b['cn']), h(a['cs'], b['cs']))
        return dict(kn=kn, ks=ks, cn=cn, cs=cs, tan=math.tan(min(a['frictionAngle'], b['frictionAngle'])), Fs=self.Z)

    def step(self, C, K):
        n, un, dt = K['n'], K['un'], K['dt']
        if un < 0: return None
        v = self.vinc(K, False)
        vn = n.dot(v); vs = v - n * vn
        Fs = C['Fs'] if K['new'] else self.rot(C['Fs'], K)
        Fs = Fs - vs * (C['ks'] * dt)
        Fn = max(C['kn'] * un - C['cn'] * vn, 0.)
        lim = Fn * C['tan']
        sl = Fs.norm() > lim
        K['scale'] = C['kn'] * un + abs(C['cn'] * vn) + Fs.norm() + C['cs'] * vs.norm()
        amb = abs(Fs.norm() - lim) <= 1e-9 * (lim + Fs.norm()) and C['cs'] * vs.norm() > 0
        if sl: Fs = Fs * (lim / Fs.norm())
        C['Fs'] = Fs
        S = Fs if sl else Fs - vs * C['cs']
        F = n * (-Fn) - S
        T1, T2 = self.torques(F, K)
        if self.mR > 0:
            w = K['w1'] - K['w2']
            c1 = n * (self.r1 - un / 2); c2 = n * (-(self.r2 - un / 2))
            k = self.mR * Fn
            if self.mt == 2: k *= (c1.cross(K['w1']) - c2.cross(K['w2'])).norm()
            T1 = T1 - w * k; T2 = T2 + w * k
            K['mscale'] = w.norm() * k
        return dict(F=F, T1=T1, T2=T2, normalForce=n * Fn, shearForce=None, flag='slide' if sl else 'stick', amb=amb, elastic=Fs.norm() - lim)


class CohFrict(Law):
    Z = property(lambda s: Vector3(0, 0, 0))

    def setup(self):
        rng = self.rng
        self.inc = rng.random() < .6
        self.m = []
        y = 10**rng.uniform(5, 7)
        for _ in range(2):
            s = y * 10**rng.uniform(-4, -1.5)
            self.m.append(dict(young=y * rng.choice((1, 1, 3)), poisson=rng.choice((.3, rng.uniform(.05, .5))), frictionAngle=rng.choice((0, .3, rng.uniform(0, 1))), density=1000,
                               normalCohesion=rng.choice((s, s, -1, 0)), shearCohesion=rng.choice((s, s, -1, 0)), fragile=rng.random() < .7, isCohesive=rng.random() < .85,
                               alphaKr=rng.choice((0, rng.uniform(.1, 3))), alphaKtw=rng.choice((0, rng.uniform(.1, 3))), momentRotationLaw=rng.random() < .7,
                               etaRoll=rng.choice((-1, rng.uniform(0, .5))) if self.inc else -1, etaTwist=rng.choice((-1, rng.uniform(0, .5))) if self.inc else -1))
        self.new = rng.random() < .7; self.now = rng.random() < .5
        self.always = rng.random() < .4
        self.unpMax = rng.choice((None, -1, 1e-3))
        self.gr = rng.random() < .5
        self.factor = rng.choice((1., 1., 1.02))
        self.opt = (self.inc, self.new, self.now, self.always, self.unpMax, self.gr, self.factor)
        self.ip = Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionOnNewContacts=self.new, setCohesionNow=self.now)
        self.bonded_at = None
        return [CohFrictMat(**m) for m in self.m], [Ig2_Sphere_Sphere_ScGeom6D(avoidGranularRatcheting=self.gr, interactionDetectionFactor=self.factor)], self.ip, \
            Law2_ScGeom6D_CohFrictPhys_CohesionMoment(useIncrementalForm=self.inc, always_use_moment_law=self.always)

    def start(self, K):
        a, b = self.m
        kn = hm2(a['young'] * self.r1, b['young'] * self.r2)
        ks = hm2(a['young'] * self.r1 * a['poisson'], b['young'] * self.r2 * b['poisson'])
        C = dict(kn=kn, ks=ks, kr=self.r1 * self.r2 * ks * hm2(a['alphaKr'], b['alphaKr']), ktw=self.r1 * self.r2 * ks * hm2(a['alphaKtw'], b['alphaKtw']),
                 tan=math.tan(min(a['frictionAngle'], b['frictionAngle'])), Fs=self.Z, unp=0., bond=False, na=0., sa=0., fragile=True, bend=self.Z, twist=self.Z,
                 roll=min(a['etaRoll'] * self.r1, b['etaRoll'] * self.r2), tw=min(a['etaTwist'] * self.r1, b['etaTwist'] * self.r2), moment=a['momentRotationLaw'] and b['momentRotationLaw'], unpMax=0., touched=False)
        return C

    def bond(self, C, K):
        a, b = self.m
        C['bond'] = True
        r = min(self.r1, self.r2)**2
        C['na'] = min(a['normalCohesion'], b['normalCohesion']) * r
        C['sa'] = min(a['shearCohesion'], b['shearCohesion']) * r
        C['fragile'] = a['fragile'] or b['fragile']
        C['o1'], C['o2'] = Quaternion(K['q1']), Quaternion(K['q2'])

    def evaluate(self, K):
        self.now_active = self.now and (self.bonded_at is None or self.bonded_at == K['iter'])
        return super().evaluate(K)

    def step(self, C, K):
        n, un, dt = K['n'], K['un'], K['dt']
        a, b = self.m
        coh = a['isCohesive'] and b['isCohesive']
        # cohesion is set at creation (if asked) or, once, in the first step in which some contact is processed
        now = self.now_active
        if now: self.bonded_at = K['iter']
        if K['new']:
            C['o1'], C['o2'] = Quaternion(K['q1']), Quaternion(K['q2'])
            if (self.new or now) and coh: self.bond(C, K)
            else: pass
        elif now and coh: self.bond(C, K)
        if K['user_unpMax'] is not None: C['unpMax'] = K['user_unpMax']
        Fn = C['kn'] * (un - C['unp'])
        K['near'] = C['na'] >= 0 and abs(-Fn - C['na']) <= 1e-9 * (abs(C['na']) + C['kn'] * (abs(un) + K['ulp']))
        flag = 'bond' if C['bond'] else 'loose'
        if C['na'] >= 0 and -Fn > C['na']:
            if C['fragile']: return None
            Fn = -C['na']; C['unp'] = un + C['na'] / C['kn']
            flag += '-yield'
            if C['unpMax'] >= 0 and -C['unp'] > C['unpMax']: return None
        N = Fn
        v = self.vinc(K, self.gr)
        vs = v - n * n.dot(v)
        Fs = C['Fs'] if K['new'] else self.rot(C['Fs'], K)
        Fs = Fs - vs * (C['ks'] * dt)
        lim = max(0., C['sa'] + Fn * C['tan'])
        K['scale'] = Fs.norm() + abs(Fn)
        if C['sa'] >= 0 and abs(Fs.norm() - lim) <= 1e-9 * (lim + Fs.norm()) and (Fn < 0 or C['bond']): K['near'] = True
        if C['sa'] >= 0 and Fs.norm() > lim:
            if C['fragile'] and C['bond']:
                C['bond'] = False; C['na'] = C['sa'] = 0.
                lim = max(0., Fn * C['tan'])
                flag = 'broke'
            Fs = Fs * (lim / Fs.norm())
            if Fn < 0: N = 0.
            flag += '-slide'
        C['Fs'] = Fs
        F = n * (-N) - Fs
        T1, T2 = self.torques(F, K)
        el = Fs.norm() - lim if C['sa'] >= 0 else 0
        if C['moment'] and (C['bond'] or self.always):
            if self.inc:
                w = K['w2'] - K['w1']
                wt = n * n.dot(w)
                tb = (lambda v: v) if K['new'] else (lambda v: self.rot(v, K))
                C['bend'] = tb(C['bend']) - (w - wt) * (C['kr'] * dt)
                C['twist'] = tb(C['twist']) - wt * (C['ktw'] * dt)
            elif K['new'] or (now and coh):
                C['bend'] = C['twist'] = self.Z
            else:
                d = (K['q1'] * C['o1'].conjugate()) * (C['o2'] * K['q2'].conjugate())
                ax, an = rotvec(d)
                tw = an * ax.dot(n)
                C['twist'] = n * (tw * C['ktw']); C['bend'] = (ax * an - n * tw) * C['kr']
            for key, mx in (('bend', C['roll']), ('twist', C['tw'])):
                if mx >= 0 and C[key].norm() > mx * abs(N):
                    C[key] = C[key] * (mx * abs(N) / C[key].norm()); flag += '-' + key
            K['mscale'] = C['bend'].norm() + C['twist'].norm() + 1e-6 * (C['kr'] + C['ktw']) * 1e-3
            T1 = T1 - C['bend'] - C['twist']; T2 = T2 + C['bend'] + C['twist']
        return dict(F=F, T1=T1, T2=T2, normalForce=n * N, shearForce=Fs, flag=flag, elastic=el, phys=dict(cohesionBroken=not C['bond']))


def rotvec(q):
    w, v = q[3], Vector3(q[0], q[1], q[2])
    s = v.norm()
    if s == 0: return Vector3(1, 0, 0), 0.
    an = 2 * math.atan2(s, w)
    if an > pi: an -= 2 * pi
    return v / s, an


class Jcfpm(Law):
    Z = property(lambda s: Vector3(0, 0, 0))

    def setup(self):
        rng = self.rng
        y = 10**rng.uniform(5, 7)
        self.m = []
        for _ in range(2):
            s = y * 10**rng.uniform(-4, -1.5)
            self.m.append(dict(young=y * rng.choice((1, 2)), poisson=rng.uniform(.05, .5), frictionAngle=rng.choice((0, .3, rng.uniform(0, 1))), density=1000, tensileStrength=rng.choice((s, 0)), cohesion=rng.choice((s * rng.uniform(.3, 3), 0)),
                               type=rng.choice((0, 0, 0, 1)), residualFrictionAngle=rng.choice((-1, rng.uniform(0, 1)))))
        self.never = rng.random() < .3
        self.gr = rng.random() < .5
        self.factor = rng.choice((1., 1.02))
        self.cti = rng.choice((1, 1, -1, 30))
        self.opt = (self.never, self.gr, self.factor, self.cti)
        self.cracks = [0, 0]
        self.law = Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM(neverErase=self.never, smoothJoint=False, recordCracks=False)
        return [JCFpmMat(**m) for m in self.m], [Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=self.gr, interactionDetectionFactor=self.factor)], Ip2_JCFpmMat_JCFpmMat_JCFpmPhys(cohesiveTresholdIteration=self.cti), self.law

    def start(self, K):
        a, b = self.m
        xs = pi * min(self.r1, self.r2)**2
        T, S = min(a['tensileStrength'], b['tensileStrength']), min(a['cohesion'], b['cohesion'])
        coh = (self.cti < 0 or K['iter'] < self.cti) and (T > 0 or S > 0) and a['type'] == b['type']
        ra, rb = [m['residualFrictionAngle'] if m['residualFrictionAngle'] >= 0 else m['frictionAngle'] for m in (a, b)]
        tan, rt = math.tan(min(a['frictionAngle'], b['frictionAngle'])), math.tan(min(ra, rb))
        return dict(kn=hm2(a['young'] * self.r1, b['young'] * self.r2), ks=hm2(a['young'] * self.r1 * a['poisson'], b['young'] * self.r2 * b['poisson']), coh=coh, T=T * xs if coh else 0, S=S * xs if coh else 0,
                    tan=tan if coh else rt, rt=rt, D0=K['un'], Fs=self.Z)

    def step(self, C, K):
        n, un, dt = K['n'], K['un'], K['dt']
        D = un - C['D0']
        zero = dict(F=self.Z, T1=self.Z, T2=self.Z, normalForce=self.Z, shearForce=self.Z, flag='gap', elastic=0, phys=dict(isCohesive=False))
        K['near'] = not K['new'] and abs(D) <= 1e-12 * (1 + K['ulp']) and not C['coh']

        def gone():
            if not self.never: return None
            C['Fs'] = self.Z; C['coh'] = False; C['T'] = C['S'] = 0
            return zero
        if D < 0:
            if not C['coh']: return gone()
            if C['T'] > 0:
                if abs(-D * C['kn'] - C['T']) <= 1e-9 * (C['T'] + C['kn'] * K['ulp']): K['near'] = True
                if -D * C['kn'] > C['T']:
                    self.cracks[0] += 1
                    return gone()
        Fn = C['kn'] * D
        v = self.vinc(K, self.gr)
        vs = v - n * n.dot(v)
        Fs = C['Fs'] if K['new'] else self.rot(C['Fs'], K)
        Fs = Fs - vs * (C['ks'] * dt)
        lim = C['S'] + Fn * C['tan']
        K['scale'] = Fs.norm() + abs(Fn)
        if abs(Fs.norm() - lim) <= 1e-9 * (abs(lim) + Fs.norm() + abs(Fn)) and C['coh']: K['near'] = True
        flag = 'bond' if C['coh'] else 'loose'
        el = 0
        if Fs.norm() > lim:
            if C['coh']:
                flag = 'broke'
                self.cracks[1] += 1
                C['coh'] = False; C['T'] = C['S'] = 0
                if D < 0: return gone()
                C['tan'] = C.get('rt_after', C['tan'])
            Fs = Fs * (lim / Fs.norm()) if Fs.norm() else self.Z
            flag += '-slide'
            el = Fs.norm() - lim
        C['Fs'] = Fs
        F = n * (-Fn) - Fs
        T1, T2 = self.torques(F, K)
        return dict(F=F, T1=T1, T2=T2, normalForce=n * Fn, shearForce=Fs, flag=flag, elastic=el, phys=dict(isCohesive=C['coh']))


LAWS = dict(mindlin=Mindlin, hertzlin=HertzLin, viscel=ViscEl, cohfrict=CohFrict, jcfpm=Jcfpm)


@each(100)
def model(ctx, c):
    rng = c.rng
    fresh()
    per = ctx.args.get('periodic')
    O.dt = 10**rng.uniform(-6, -3)
    if per:
        O.periodic = True
        O.cell.hSize = Matrix3(8, rng.uniform(-2, 2), 0, 0, 7, rng.uniform(-2, 2), 0, 0, 9)
        O.cell.homoDeform = 0
    r1, r2 = rng.uniform(.3, .8), rng.uniform(.2, .8)
    L = LAWS[ctx.args['law']](rng, r1, r2)
    mats, ig, ip, law = L.setup()
    O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(aabbEnlargeFactor=1.1)], verletDist=.1), InteractionLoop(ig, [ip], [law]), NewtonIntegrator(damping=0)]
    n0 = rquat(rng) * Vector3(1, 0, 0)
    x1 = rvec(rng, 5) if not per else Vector3(rng.uniform(0, 8), rng.uniform(0, 7), rng.uniform(0, 9))
    shift = Vector3(rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(-2, 2)) if per else Vector3(0, 0, 0)
    x2 = x1 + n0 * ((r1 + r2) * rng.uniform(.95, 1.01)) + (O.cell.hSize * shift if per else Vector3(0, 0, 0))
    dyn = rng.random() < .5
    for x, r, m in ((x1, r1, mats[0]), (x2, r2, mats[1])):
        b = utils.sphere(x, r, material=m, fixed=True)
        O.bodies.append(b)
        b.state.ori = rquat(rng)
        if dyn: b.dynamic = True; b.state.blockedDOFs = 'xyzXYZ'
    if per and rng.random() < .6:
        a = 10**rng.uniform(-5, -3) / O.dt
        O.cell.velGrad = Matrix3(*[rng.uniform(-a, a) for _ in range(9)])
    mass = [b.state.mass for b in O.bodies]
    path = Path(rng, r1, r2, O.dt)
    user = None
    for k in range(rng.randint(60, 160)):
        S = [b.state for b in O.bodies]
        H = Matrix3(O.cell.hSize) if per else None
        sh = H * shift if per else Vector3(0, 0, 0)
        v, w = path.next(S[1].pos - sh - S[0].pos)
        for s, vv, ww in zip(S, v, w): s.vel = vv; s.angVel = ww
        X = [Vector3(s.pos) for s in S]; V = [Vector3(s.vel) for s in S]; W = [Vector3(s.angVel) for s in S]; Q = [Quaternion(s.ori) for s in S]
        if isinstance(L, CohFrict) and L.C is not None and user is None and L.unpMax is not None and O.interactions.has(0, 1) and O.interactions[0, 1].isReal:
            user = L.unpMax; O.interactions[0, 1].phys.unpMax = user
        it = O.iter
        O.step()
        sv = Vector3(0, 0, 0)
        if per:
            sh = O.cell.hSize * shift
            sv = (O.cell.hSize - H) * shift * (-1 / O.dt)
        d = X[1] - sh - X[0]
        ulp = 1e-14 * (X[0].norm() + X[1].norm() + sh.norm())
        K = dict(n=d / d.norm(), un=r1 + r2 - d.norm(), v1=V[0], v2=V[1], w1=W[0], w2=W[1], q1=Q[0], q2=Q[1], dt=O.dt, sv=sv, mass=mass, iter=it, ulp=ulp, user_unpMax=user if L.C is not None else None,
                 mbar=mass[0] * mass[1] / sum(mass), near=False, scale=0., mscale=0.)
        if abs(K['un']) < 1e-11 * (1 + sh.norm()) or abs(d.norm() - L.factor * (r1 + r2)) < 1e-11: return
        was = L.C is not None
        r = L.evaluate(K)
        if L.C is None: user = None
        i = O.interactions[0, 1] if O.interactions.has(0, 1) else None
        real = i is not None and i.isReal
        where = '%s step %d, radii %g %g, materials %s, options %s' % (ctx.args['law'], k, r1, r2, L.m, L.opt)
        if K['near']: return
        ctx.check(real == (r is not None), 'contact', '%s: contact %s, expected %s (overlap %g, was %s)' % (where, real, r is not None, K['un'], was))
        if r is None:
            ctx.check(O.forces.f(0) == Vector3(0, 0, 0) and O.forces.t(0) == Vector3(0, 0, 0), 'force-without-contact', '%s: %s %s' % (where, O.forces.f(0), O.forces.t(0)))
            ctx.observed((ctx.args['law'], 'none', was))
            continue
        if r.get('amb'): return
        p = i.phys
        sg = 1 if i.id1 == 0 else -1
        C = L.C
        stiff = C.get('kn') or 1.5 * C['kno'] * sqrt(max(K['un'], 0))
        sc = stiff * (1e-14 * (r1 + r2) + ulp) * (k + 10) * 3 + 1e-9 * K['scale']
        ctx.check((p.normalForce * sg - r['normalForce']).norm() <= sc, 'normal-force', lambda: '%s: normal force %s, expected %s (overlap %g)' % (where, p.normalForce * sg, r['normalForce'], K['un']))
        if r['shearForce'] is not None:
            ctx.check((p.shearForce * sg - r['shearForce']).norm() <= sc, 'shear-force', lambda: '%s: shear force %s, expected %s (%s)' % (where, p.shearForce * sg, r['shearForce'], r['flag']))
        ctx.check((O.forces.f(0) - r['F']).norm() <= sc and (O.forces.f(1) + r['F']).norm() <= sc, 'force', lambda: '%s: forces %s %s, expected +-%s (%s)' % (where, O.forces.f(0), O.forces.f(1), r['F'], r['flag']))
        ts = 4 * sc * (r1 + r2 + 1e-3 * (X[0].norm() + X[1].norm())) + 1e-8 * K['mscale'] + (ulp + 1e-14) * (K['scale']) * 10
        ctx.check((O.forces.t(0) - r['T1']).norm() <= ts and (O.forces.t(1) - r['T2']).norm() <= ts, 'torque', lambda: '%s: torques %s %s, expected %s %s (%s)' % (where, O.forces.t(0), O.forces.t(1), r['T1'], r['T2'], r['flag']))
        for key, val in r.get('phys', {}).items():
            ctx.check(getattr(p, key) == val, 'bond-state', lambda: '%s: %s is %s (%s)' % (where, key, getattr(p, key), r['flag']))
        if isinstance(L, Jcfpm):
            ctx.check([L.law.nbTensCracks, L.law.nbShearCracks] == L.cracks, 'cracks', lambda: '%s: %d tensile and %d shear cracks, expected %s' % (where, L.law.nbTensCracks, L.law.nbShearCracks, L.cracks))
        ctx.observed((ctx.args['law'], L.opt, r['flag'], was, bool(per)))
    ctx.note('histories')


def collide(f, m, v0):
    """Rebound speed and duration of a one-dimensional collision with force f(overlap, closing speed) and reduced mass m, finely integrated."""
    # time scale by a first coarse estimate of the stiffness
    x, v, t = 0., v0, 0.
    h = 1e-5 * f.tscale
    n = 0
    while True:
        def acc(x, v): return -f(x, v) / m
        k1v = acc(x, v); k1x = v
        k2v = acc(x + .5 * h * k1x, v + .5 * h * k1v); k2x = v + .5 * h * k1v
        x += h * k2x; v += h * k2v; t += h
        n += 1
        if x <= 0 or n > 10**6: return -v, t


class Fv:
    def __init__(s, kn, cn, m): s.kn, s.cn, s.tscale = kn, cn, math.pi * math.sqrt(m / kn) * 20

    def __call__(s, x, v): return max(s.kn * x + s.cn * v, 0.)


class Fh:
    def __init__(s, kno, al, m, v0):
        s.k, s.a, s.m = kno, al, m
        s.tscale = 2.94 * (m**2 / (kno**2 * v0))**.2 * 20 * 1.1

    def __call__(s, x, v):
        if x <= 0: return 0.
        return max(s.k * x**1.5 + s.a * math.sqrt(s.m) * x**.25 * v, 0.)


@each(25)
def rebound(ctx, c):
    """Free head-on and oblique collisions: the rebound follows from the prescribed restitution, for any masses and directions."""
    rng = c.rng
    fresh()
    r = [rng.uniform(.2, 1) for _ in range(2)]
    v0 = 10**rng.uniform(-2, 0)
    en = rng.uniform(.2, .98)
    wall = rng.random() < .4
    rho = [10**rng.uniform(2, 4) for _ in range(2)]
    n = rquat(rng) * Vector3(1, 0, 0)
    if ctx.args['law'] == 'viscel':
        tc = 10**rng.uniform(-3, -2)
        mats = [ViscElMat(tc=tc, en=en, et=1., frictionAngle=0, density=d) for d in rho]
        ip, law = Ip2_ViscElMat_ViscElMat_ViscElPhys(), Law2_ScGeom_ViscElPhys_Basic()
    else:
        mats = [FrictMat(young=10**rng.uniform(6, 8), poisson=rng.uniform(.1, .4), frictionAngle=0, density=d) for d in rho]
        ip, law = Ip2_FrictMat_FrictMat_MindlinPhys(en=MatchMaker(algo='val', val=en)), Law2_ScGeom_MindlinPhys_Mindlin()
    O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb()]), InteractionLoop([Ig2_Sphere_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom()], [ip], [law]), NewtonIntegrator(damping=0)]
    off = rvec(rng, 3)
    base = rvec(rng, 1) if not wall else Vector3(0, 0, 0)
    a = utils.sphere(off, r[0], material=mats[0], fixed=wall)
    b = utils.sphere(off + n * (r[0] + r[1]) * (1 + 1e-9), r[1], material=mats[1])
    for x in rng.sample((a, b), 2): O.bodies.append(x)
    a.state.vel = base
    b.state.vel = base - n * v0
    m = b.state.mass if wall else a.state.mass * b.state.mass / (a.state.mass + b.state.mass)
    if ctx.args['law'] == 'viscel':
        # the masses of both bodies enter the stiffness; a fixed body counts with its own mass
        mr = a.state.mass * b.state.mass / (a.state.mass + b.state.mass)
        f = Fv((pi**2 + log(en)**2) / tc**2 * mr, -2 / tc * log(en) * mr, m)
    else:
        L = Mindlin(rng, *r)
        L.m = [dict(young=x.young, poisson=x.poisson, frictionAngle=0) for x in mats]
        E, R, kno, kso, tan = L.consts()
        f = Fh(kno, -log(en) * sqrt(5 * kno) / sqrt(log(en)**2 + pi**2), m, v0)
    ve, te = collide(f, m, v0)
    O.dt = te / 2000
    tot = 0
    p0 = a.state.mass * a.state.vel + b.state.mass * b.state.vel
    for k in range(6000):
        O.step()
        i = [i for i in O.interactions]
        if i and k > 2:
            ctx.check(i[0].phys.normalForce.dot(i[0].geom.normal) >= 0, 'attraction', 'step %d: normal force pulls' % k)
        if k > 20 and (b.state.pos - a.state.pos).norm() > r[0] + r[1] + 2 * v0 * O.dt: break
    rel = (b.state.vel - a.state.vel)
    t = O.time
    ctx.check(abs(rel.dot(n) - ve) <= .01 * v0 + .01 * ve, 'restitution', '%s: rebound %g of approach %g, expected %g (restitution %g, radii %s, fixed %s)' % (ctx.args['law'], rel.dot(n), v0, ve, en, r, wall))
    ctx.check((rel - n * rel.dot(n)).norm() <= 1e-6 * v0, 'sideways', '%s: head-on collision leaves sideways velocity %s' % (ctx.args['law'], rel - n * rel.dot(n)))
    if not wall:
        p1 = a.state.mass * a.state.vel + b.state.mass * b.state.vel
        ctx.check((p1 - p0).norm() <= 1e-9 * (p0.norm() + m * v0), 'momentum', '')
    # the force never pulls, so a little less is lost than the formula for unlimited viscous force says
    if not wall: ctx.check(ve >= en * v0 * .98, 'restitution-below', 'rebound %g below prescribed %g' % (ve, en * v0))
    ctx.check(rel.dot(n) <= v0 * (1 + 1e-3), 'energy-gain', 'rebound %g of approach %g' % (rel.dot(n), v0))
    ctx.note_max('max_rel_err', abs(rel.dot(n) - ve) / v0)
    ctx.observed(('rebound', ctx.args['law'], wall, round(en, 1), round(log(v0))))


@each(6)
def bonds(ctx, c):
    """A bonded packing torn apart: bonds break once, never heal, never exceed their strengths; the number of bonds only decreases."""
    rng = c.rng
    fresh()
    law = rng.choice(('coh', 'jcf'))
    y = 1e7
    s = y * 10**rng.uniform(-3.5, -2)
    if law == 'coh':
        m = CohFrictMat(young=y, poisson=.3, frictionAngle=.4, density=2000, normalCohesion=s, shearCohesion=s * rng.uniform(.5, 2), momentRotationLaw=rng.random() < .5, etaRoll=-1, etaTwist=-1)
        lf = Law2_ScGeom6D_CohFrictPhys_CohesionMoment(useIncrementalForm=True)
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(aabbEnlargeFactor=1.2)]), InteractionLoop([Ig2_Sphere_Sphere_ScGeom6D(interactionDetectionFactor=1.2)], [Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionNow=True)], [lf]), NewtonIntegrator(damping=.1)]
    else:
        m = JCFpmMat(young=y, poisson=.3, frictionAngle=.4, density=2000, tensileStrength=s, cohesion=s * rng.uniform(.5, 2), type=1)
        lf = Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM(neverErase=False)
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(aabbEnlargeFactor=1.2)]), InteractionLoop([Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=1.2)], [Ip2_JCFpmMat_JCFpmMat_JCFpmPhys(cohesiveTresholdIteration=1)], [lf]), NewtonIntegrator(damping=.1)]
    O.materials.append(m)
    R = {}
    for i in range(4):
        for j in range(4):
            for k in range(4):
                r = rng.uniform(1., 1.02) if law == 'coh' else rng.uniform(.9, 1.02)
                id = O.bodies.append(utils.sphere((2 * i, 2 * j, 2 * k), r, material=m))
                R[id] = r
    O.dt = .3 * utils.PWaveTimeStep()
    intact = lambda p: not p.cohesionBroken if law == 'coh' else p.isCohesive
    O.step()
    alive = set()
    strength = {}
    for i in O.interactions:
        if intact(i.phys):
            k = (min(i.id1, i.id2), max(i.id1, i.id2))
            alive.add(k)
            rr = min(R[i.id1], R[i.id2])**2
            strength[k] = (s * rr, m.shearCohesion * rr) if law == 'coh' else (s * rr * pi, m.cohesion * rr * pi)
    ctx.check(len(alive) >= 144, 'bonds-created', '%d bonds of a 4x4x4 lattice' % len(alive))
    n0 = len(alive)
    a = 10**rng.uniform(-1, .7)
    for b in O.bodies: b.state.vel = Vector3(*[(b.state.pos[q] - 3) * a * rng.uniform(.3, 1) for q in range(3)]); b.state.angVel = rvec(rng, a)
    for st in range(200):
        O.step()
        now = set()
        for i in O.interactions:
            k = (min(i.id1, i.id2), max(i.id1, i.id2))
            p = i.phys
            fn = p.normalForce.dot(i.geom.normal); fs = p.shearForce.norm()
            tan = p.tangensOfFrictionAngle if law == 'coh' else p.tanFrictionAngle
            if intact(p):
                now.add(k)
                T, S = strength[k]
                ctx.check(k in alive, 'healed', '%s: bond %s came back at step %d' % (law, k, st))
                ctx.check(-fn <= T * (1 + 1e-9), 'tension', '%s: bond %s carries tension %g of strength %g' % (law, k, -fn, T))
                ctx.check(fs <= (S + fn * tan) * (1 + 1e-9) + 1e-9 * S, 'shear', '%s: bond %s carries shear %g of strength %g' % (law, k, fs, S + fn * tan))
            else:
                ctx.check(fn >= -1e-12, 'pull', '%s: unbonded contact %s pulls with %g' % (law, k, -fn))
                # the step in which a bond breaks in compression may still carry the bonded limit
                lim = fn * tan if k not in alive or law == 'coh' else strength[k][1] + fn * tan
                ctx.check(fs <= lim * (1 + 1e-9) + 1e-9, 'coulomb', '%s: unbonded contact %s shear %g of limit %g' % (law, k, fs, lim))
            ctx.observed(('bonds', law, intact(p), fn > 0, fs > .9 * fn * tan))
        ctx.check(now <= alive, 'healed', '%s: bonds %s came back' % (law, now - alive))
        alive = now
    if law == 'jcf':
        ctx.check(lf.nbTensCracks + lf.nbShearCracks == n0 - len(alive), 'crack-count', '%d tensile + %d shear cracks reported, %d bonds lost' % (lf.nbTensCracks, lf.nbShearCracks, n0 - len(alive)))
        br = sum(b.state.nbBrokenBonds for b in O.bodies)
        ctx.check(br == 2 * (n0 - len(alive)), 'broken-bond-count', '%d counted at bodies, %d bonds lost' % (br, n0 - len(alive)))
    ctx.note('bonds_broken', n0 - len(alive)); ctx.note('bonds_kept', len(alive))


@each(60)
def observer(ctx, c):
    """The same history under each law, with the bodies created in the other order and seen by a rotated observer."""
    rng = c.rng
    hist = P13.history(rng, rng.randint(40, 100))
    dt, r1, r2, x1, x2, H = hist
    name = rng.choice(list(LAWS))
    seed = rng.randrange(10**9)
    import random

    def play(order, q):
        fresh(); O.dt = dt
        L = LAWS[name](random.Random(seed), r1, r2)
        mats, ig, ip, law = L.setup()
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(aabbEnlargeFactor=1.1)], verletDist=.1), InteractionLoop(ig, [ip], [law]), NewtonIntegrator(damping=0)]
        B = [utils.sphere(q * x1, r1, material=mats[0], fixed=True), utils.sphere(q * x2, r2, material=mats[1], fixed=True)]
        for b in (B[::-1] if order else B): O.bodies.append(b)
        out = []
        for h in H:
            for b, v, w in zip(B, h[:2], h[2:]): b.state.vel = q * v; b.state.angVel = q * w
            O.step()
            out.append([q.conjugate() * O.forces.f(b.id) for b in B] + [q.conjugate() * O.forces.t(b.id) for b in B])
        return out, L.opt
    ref, opt = play(0, Quaternion(1, 0, 0, 0))
    big = max(v.norm() for row in ref for v in row)
    if not big: return
    for what in ('rotated', 'swapped'):
        got, _ = play(what == 'swapped', Quaternion(1, 0, 0, 0) if what == 'swapped' else rquat(rng))
        # a bond that breaks one step earlier or later by rounding is not judged: compare up to the first such step
        for k, (a, b) in enumerate(zip(ref, got)):
            if (a[0].norm() < 1e-12 * big) != (b[0].norm() < 1e-12 * big): break
            for j in range(4):
                ctx.check((a[j] - b[j]).norm() <= 1e-6 * big, 'observer-' + what, lambda: '%s %s: step %d: %s of body %d is %s, %s observer sees %s' % (name, opt, k, ('force', 'torque')[j // 2], j % 2, a[j], what, b[j]))
            ctx.observed(('obs', name, what, opt))
