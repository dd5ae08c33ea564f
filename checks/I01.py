"""I01: surface integrators against a reference tracer on scenes that can be solved by hand."""
import itertools
from mc.pt import *
from mc import scenes as sc
from mc.core import isclose
from pytracer import Spectrum
from pytracer.aggregate import GeometricPrimitive, SimpleAggregate, Intersection
from pytracer.integrator import (DirectLightingIntegrator, WhittedIntegrator, PathIntegrator, LightStrategy,
                                 specular_reflect, specular_transmit, compute_light_sampling_cdf)
from pytracer.light import Light, PointLight, SpotLight, DistantLight, DiffuseAreaLight
from pytracer.light.utility import VisibilityTester
from pytracer.material import MatteMaterial, MirrorMaterial, GlassMaterial, PlasticMaterial
from pytracer.renderer import SamplerRenderer
from pytracer.sampler import Sample
from pytracer.scene import Scene
from pytracer.shape import Sphere, Disk
from pytracer.texture import ConstantTexture
from pytracer.transform import Transform

RULE = ('every catalogue scene (matte, mirror, glass, facing mirrors, emitters, media) x every subset of delta lights x integrator x depth limit x camera ray grid, compared with a list-based reference tracer; '
        'every roulette outcome or component choice of short paths; area-light estimates by exact sample grids; every ordered pair of rays for history independence; spawned ray differentials against exactly traced neighbours; '
        'states are (scene, lights, integrator, depth, ray)')
ASSUME = ['rays whose hits or shadows lie within 1e-3 of an object edge are left out', 'grid estimates of area lights are compared within the error of the grid', 'media are represented by a stub volume integrator (the repository has none)']
EPS = 1e-3


# ---------------------------------------------------------------- reference
def matte(r): return dict(k='matte', r=r)
def mirror(r): return dict(k='mirror', r=r)
def glass(r, t, e): return dict(k='glass', r=r, t=t, e=e)


BLACK = matte((0., 0., 0.))
GREY, RED = matte((.5, .5, .5)), matte((.8, .2, .1))


def Dk(c, r, axis=2, flip=False, m=GREY, e=None): return dict(s='disk', c=c, r=r, a=axis, f=flip, m=m, e=e)
def Bl(c, r, m=GREY, e=None): return dict(s='ball', c=c, r=r, m=m, e=e, f=False)


E1, E2 = (3., 1., .5), (.5, 2., 4.)
SC = {
    'floor': [Dk((0., 0., 0.), 4.)],
    'table': [Dk((0., 0., 0.), 4.), Bl((.3, .2, .8), .5, RED), Dk((-1., .5, .6), .5, 2, False, RED)],
    'lamp': [Dk((0., 0., 0.), 4., m=RED), Bl((0., 0., 2.), .4, BLACK, E1), Dk((1.5, 0., 1.), .6, 0, False, GREY, E2)],
    'vanity': [Dk((0., 0., 0.), 3., m=mirror((.9, .8, .7))), Dk((1.8, 0., 1.), 1., 0, True, RED), Dk((-1.5, 0., 1.), .8, 0, False, BLACK, E1)],
    'hall': [Dk((0., 0., 0.), 3., m=mirror((.9, .8, .7))), Dk((0., 0., 2.), 3., 2, True, mirror((.6, .9, .5))), Dk((2., 0., 1.), .9, 0, True, RED, E2)],
    'closed': [Dk((0., 0., 0.), 3., m=mirror((.9, .8, .7))), Dk((0., 0., 2.), 3., 2, True, mirror((.6, .9, .5)))],
    'bead': [Dk((0., 0., -1.), 4., m=GREY), Bl((0., 0., .5), .75, glass((1., 1., 1.), (1., .9, .8), 1.5)), Dk((2.5, 0., .5), 1., 0, True, BLACK, E1)],
    'clear': [Dk((0., 0., -1.), 4., m=RED), Bl((0., 0., .5), .75, glass((0., 0., 0.), (.9, .9, .8), 1.3)), Dk((2.5, 0., .5), 1., 0, True, BLACK, E1)],
    'pane': [Dk((0., 0., 0.), 4., m=RED), Dk((0., 0., 1.), 2., 2, False, glass((1., .5, 1.), (.8, .9, 1.), 1.4)), Dk((0., 0., .7), 2., 2, True, glass((1., 1., 1.), (.7, 1., .9), 1.4))],
    'well': [Dk((0., 0., 0.), 4., m=mirror((.9, .8, .7))), Dk((-1.9, .5, 2.), 1.7, 2, True, BLACK, E1), Dk((1.8, 1.3, 1.9), .7, 2, False, BLACK, E2), Dk((-1.8, 0., 1.), .9, 0, False, mirror((.8, .9, 1.)))],
    'orb': [Dk((0., 0., 0.), 4., m=GREY), Bl((0., 0., 1.), .7, mirror((1., .9, .3))), Bl((1.4, .6, .8), .35, RED, E2)],
}
DL = ['point', 'spot', 'distant']
LI = {'point': ((1., .7, 2.5), (6., 4., 2.)), 'spot': ((-.8, -.6, 2.2), (5., 9., 7.)), 'distant': ((.3, -.2, 1.), (.5, .3, .8))}
SPOT = (60., 40.)
CAM = [(-.7, .3, 1.6), (.4, -1.9, 1.35), (1.2, 1.1, .45)]
AT = [(-1.3, .37, 0.), (.33, .21, .8), (.21, .13, .45), (.97, -.61, 0.), (-1.5, .11, 1.07), (1.9, .17, .93), (0.11, .07, 2.), (.6, .9, .3)]


def rays_():
    return [(list(o), unit(sub(a, o))) for o in CAM for a in AT]


def hits(ob, o, d):
    """[(t, outward normal, edge?)]"""
    if ob['s'] == 'ball':
        c = sub(o, ob['c'])
        b, q = dot(c, d), dot(c, c) - ob['r'] ** 2
        disc = b * b - q
        if disc < 0:
            return [] if disc < -EPS else [(None, None, True)]
        s = math.sqrt(disc)
        return [(t, unit(sub(add(o, mul(d, t)), ob['c'])), disc < EPS) for t in (-b - s, -b + s)]
    n = [0., 0., 0.]
    if ob['a'] == 0:
        n[0] = 1.
    else:
        n[2] = 1.
    if ob['f']:
        n = mul(n, -1.)
    dn = dot(d, n)
    if abs(dn) < 1e-9:
        return []
    t = dot(sub(ob['c'], o), n) / dn
    w = norm(sub(add(o, mul(d, t)), ob['c']))
    if abs(w - ob['r']) < EPS and t > 0:
        return [(t, n, True)]
    return [(t, n, False)] if w < ob['r'] else []


class Edge(Exception):
    pass


def trace(objs, o, d, near=EPS, far=INF):
    best = None
    for ob in objs:
        for t, n, edge in hits(ob, o, d):
            if edge:
                raise Edge()
            if near < t < far and (best is None or t < best[0]):
                best = (t, n, ob)
    return best


def fresnel(ci, e):
    ei, et = (1., e) if ci > 0 else (e, 1.)
    ci = abs(ci)
    st = ei / et * math.sqrt(max(0., 1 - ci * ci))
    if st >= 1:
        return 1.
    ct = math.sqrt(1 - st * st)
    a, b = (et * ci - ei * ct) / (et * ci + ei * ct), (ei * ci - et * ct) / (ei * ci + et * ct)
    return (a * a + b * b) / 2


def refract(wo, n, e):
    ci = dot(wo, n)
    ei, et = (1., e) if ci > 0 else (e, 1.)
    r = ei / et
    nn = n if ci > 0 else mul(n, -1.)
    c = abs(ci)
    k = 1 - r * r * (1 - c * c)
    if k <= 0:
        return None, r
    return unit(add(mul(wo, -r), mul(nn, r * c - math.sqrt(k)))), r


def cut(a, b): return [x * y for x, y in zip(a, b)]


def delta(l, p):
    """direction, distance, radiance"""
    x, i = LI[l]
    if l == 'distant':
        return unit(x), INF, list(i)
    v = sub(x, p)
    d = norm(v)
    w = mul(v, 1 / d)
    f = 1.
    if l == 'spot':
        c = w[2]
        a, b = math.cos(math.radians(SPOT[0])), math.cos(math.radians(SPOT[1]))
        if abs(c - a) < EPS or abs(c - b) < EPS:
            raise Edge()
        f = 0. if c < a else 1. if c > b else ((c - a) / (b - a)) ** 4
    return w, d, [v * f / d / d for v in i]


FOG = 2.5


def sky(d):
    return [.6 + .3 * d[0], .5 + .4 * d[1], .8 - .5 * d[2]]


class Sky(Light):
    """stands in for an environment: seen where rays escape, not sampled at diffuse surfaces"""
    def __init__(self):
        super().__init__(Transform())

    def le(self, ray):
        return Spectrum.from_rgb(sky(unit(L(ray.d))))

    def sample_l(self, p, eps, ls, time):
        return Spectrum(0.), V((0., 0., 1.)), 0., VisibilityTester()

    def sample_r(self, scene, ls, u1, u2, time):
        raise NotImplementedError('not asked for')

    def is_delta_light(self):
        return True

    def power(self, scene):
        return Spectrum(1.)

    def pdf(self, p, wi):
        return 0.


class Ref(object):
    def __init__(self, objs, lights, sigma=0.):
        self.objs, self.lights, self.sigma = objs, lights, sigma
        self.n = 0

    def tr(self, t):
        return math.exp(-self.sigma * min(t, FOG)) if self.sigma else 1.

    def direct(self, p, n, wo, r):
        out = [0.] * 3
        for l in self.lights:
            if l == 'sky':
                continue
            w, d, i = delta(l, p)
            if abs(dot(w, n)) < EPS:
                raise Edge()
            if dot(w, n) * dot(wo, n) > 0 and trace(self.objs, p, w, EPS, d) is None:
                out = add(out, mul(cut(i, r), abs(dot(w, n)) / math.pi * self.tr(d)))
        return out

    def li(self, o, d, depth):
        """depth: number of surfaces still looked at"""
        self.n += 1
        h = trace(self.objs, o, d)
        if h is None:
            return mul(sky(d), self.tr(INF)) if 'sky' in self.lights else [0.] * 3
        t, n, ob = h
        p, wo, m = add(o, mul(d, t)), mul(d, -1.), ob['m']
        if abs(dot(wo, n)) < EPS:
            raise Edge()
        out = list(ob['e']) if ob['e'] and dot(wo, n) > 0 else [0.] * 3
        if m['k'] == 'matte':
            if any(m['r']):
                out = add(out, self.direct(p, n, wo, m['r']))
        elif depth > 1:
            rd = sub(mul(n, 2 * dot(wo, n)), wo)
            if m['k'] == 'mirror':
                out = add(out, cut(m['r'], self.li(p, rd, depth - 1)))
            else:
                f = fresnel(dot(wo, n), m['e'])
                if any(m['r']):
                    out = add(out, mul(cut(m['r'], self.li(p, rd, depth - 1)), f))
                td, r = refract(wo, n, m['e'])
                if td is not None and any(m['t']):
                    out = add(out, mul(cut(m['t'], self.li(p, td, depth - 1)), (1 - f) * r * r))
        return mul(out, self.tr(t))


# ---------------------------------------------------------------- the real scene
def C(x): return ConstantTexture(Spectrum.from_rgb(list(x)))


def mat(m):
    if m['k'] == 'matte':
        return MatteMaterial(C(m['r']), ConstantTexture(0.))
    if m['k'] == 'mirror':
        return MirrorMaterial(C(m['r']))
    if m['k'] == 'plastic':
        return PlasticMaterial(C(m['r']), C((.3, .3, .3)), ConstantTexture(.3))
    return GlassMaterial(C(m['r']), C(m['t']), ConstantTexture(m['e']))


def shape(ob):
    t = Transform.translate(V(ob['c']))
    if ob['s'] == 'ball':
        return Sphere(t, t.inverse(), False, ob['r'], -ob['r'], ob['r'], 360.)
    if ob['a'] == 0:
        t = t * Transform.rotate_y(90.)
    return Disk(t, t.inverse(), ob['f'], 0., ob['r'], 0., 360.)


def dlight(l):
    if l == 'sky':
        return Sky()
    x, i = LI[l]
    s = Spectrum.from_rgb(list(i))
    if l == 'distant':
        return DistantLight(Transform(), s, V(x))
    if l == 'spot':
        t = Transform.translate(V(x)) * Transform.rotate_x(180.)
        return SpotLight(t, s, *SPOT)
    return PointLight(Transform.translate(V(x)), s)


class Clock(SimpleAggregate):
    """notes the times of the rays it is asked about"""
    def __init__(self, prims):
        super(Clock, self).__init__(prims, True)
        self.asked = set()

    def intersect(self, ray, isect):
        self.asked.add(float(ray.time))
        return super(Clock, self).intersect(ray, isect)

    def intersect_p(self, ray):
        self.asked.add(float(ray.time))
        return super(Clock, self).intersect_p(ray)


def on_time(run, ctx, tag):
    ctx.check(run.clock.asked <= {.3}, 'time', '%s: rays at times %s for a camera ray at .3' % (tag, sorted(run.clock.asked)))


def build(objs, lights, area=False, ns=1):
    prims, ls = [], [dlight(l) for l in lights]
    for ob in objs:
        s = shape(ob)
        a = None
        if ob['e']:
            a = DiffuseAreaLight(Transform(), Spectrum.from_rgb(list(ob['e'])), ns, s)
            if area:
                ls.append(a)
        prims.append(GeometricPrimitive(s, mat(ob['m']), a))
    clock = Clock(prims)
    sc_ = Scene(clock, ls, None)
    sc_.clock_ = clock
    return sc_


class Medium(object):
    """stands in for a volume integrator: uniform absorption over the first FOG units of every segment"""
    def __init__(self, sigma):
        self.sigma = sigma

    def tr(self, ray):
        t = float(ray.maxt) - float(ray.mint)
        return Spectrum(math.exp(-self.sigma * min(t, FOG)))

    def li(self, scene, renderer, ray, sample, rng):
        return Spectrum(0.), self.tr(ray)

    def transmittance(self, scene, renderer, ray, sample, rng):
        return self.tr(ray)


def integ(name, depth):
    if name == 'whitted':
        return WhittedIntegrator(depth)
    if name == 'all':
        return DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, depth)
    if name == 'one':
        return DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, depth)
    return PathIntegrator(depth)


class Rng(object):
    def __init__(self, f):
        self.f, self.n = f, 0

    def __call__(self):
        self.n += 1
        return self.f(self.n - 1)


class Rounder(object):
    """a sampler that takes samples in groups of its own choosing"""
    def __init__(self, f):
        self.round_size = f


class Run(object):
    def __init__(self, scene, i, sigma=0., sampler=None):
        self.scene, self.i = scene, i
        self.clock = getattr(scene, 'clock_', None) or Clock([])
        self.clock.asked.clear()
        self.r = SamplerRenderer(None, None, i, Medium(sigma) if sigma else None)
        self.s = Sample(sampler, i, None, scene)
        self.s.time = .3
        self.n = 0
        self.hook = None
        li = self.r.li

        def counted(*a, **k):
            self.n += 1
            return li(*a, **k)
        self.r.li = counted

    def fill(self, u1, u2):
        """u1(request, k, n), u2(request, k, n)"""
        for i, n in enumerate(self.s.n1D):
            self.s.oneD[i] = [u1(i, k, n) for k in range(n)]
        for i, n in enumerate(self.s.n2D):
            self.s.twoD[i] = [u2(i, k, n) for k in range(n)]

    def __call__(self, o, d, rng, isect=None):
        ray = geo.RayDifferential(Pt(o), V(d), 0., INF, 0, .3)
        L_, T = self.r.li(self.scene, ray, self.s, isect or Intersection(), rng)
        return L(L_)


FILL = [(lambda i, k, n: .3, lambda i, k, n: (.2, .6)), (lambda i, k, n: .999, lambda i, k, n: (.7, .1))]


def want(ref, o, d, depth, ctx):
    try:
        return ref.li(o, d, depth)
    except Edge:
        ctx.skip()
        return None


# ---------------------------------------------------------------- cases
def CASES(tier):
    cs = []
    q = tier == 'quick'
    for s in sorted(SC):
        for sub_ in (0, 1) if s == 'well' else range(8):
            ls = [l for i, l in enumerate(DL) if sub_ >> i & 1]
            for g in ('whitted', 'all', 'one'):
                if q and (sub_ in (3, 5, 6) if g != 'all' else sub_ in (5,)):
                    continue
                cs.append(dict(k='chain', s=s, l=ls, g=g, d=(1, 2, 3) if q else (1, 2, 3, 4, 5, 6)))
        cs.append(dict(k='media', s=s, l=['point', 'spot'], g='whitted', d=(2, 3)))
        cs.append(dict(k='media', s=s, l=['point', 'distant'], g='all', d=(2, 3)))
        for g in ('whitted', 'all', 'one'):
            cs.append(dict(k='chain', s=s, l=['sky', 'point'], g=g, d=(1, 2, 3)))
            cs.append(dict(k='media', s=s, l=['sky', 'spot'], g=g, d=(1, 2, 3)))
        cs.append(dict(k='path0', s=s))
        cs.append(dict(k='pairs', s=s, g='all'))
        cs.append(dict(k='pairs', s=s, g='whitted'))
    for s in ('vanity', 'hall', 'orb', 'closed', 'clear', 'well'):
        cs.append(dict(k='walk', s=s, q=2 if q else 3))
    for s in ('bead', 'pane'):
        for i in range(0, 24, 3 if q else 1):
            cs.append(dict(k='choice', s=s, i=i))
    for a in range(len(AREA)):
        for g in ('all', 'one', 'whitted', 'path'):
            cs.append(dict(k='area', a=a, g=g, n=12 if q else 32))
    for s in ('vanity', 'bead', 'pane', 'orb', 'clear'):
        cs.append(dict(k='diff', s=s))
    for s, e in (('bead', False), ('pane', True)):
        cs.append(dict(k='round', s=s, e=e))
    cs.append(dict(k='cdf'))
    for a in range(len(OVEN)):
        for d in range(0, (6, 5, 8, 4, 7)[a] if q else 9):
            cs.append(dict(k='oven', a=a, d=d, n=1 if q and d > 2 else 2))
    return cs


def lit(objs):
    """emitters may join the light list when nothing diffuse is around"""
    return all(o['m']['k'] != 'matte' or not any(o['m']['r']) for o in objs)


def run_chain(case, ctx):
    sig = .3 if case['k'] == 'media' else 0.
    objs = SC[case['s']]
    sc_ = build(objs, case['l'], lit(objs))
    ref = Ref(objs, case['l'], sig)
    nl = len(sc_.lights)
    for dep in case['d']:
        run = Run(sc_, integ(case['g'], dep), sig)
        first = None
        for o, d in rays_():
            w = want(ref, o, d, dep, ctx)
            if w is None:
                continue
            tag = '%s lights %s %s depth %d from %s to %s' % (case['s'], case['l'], case['g'], dep, short(o), short(d))
            if case['g'] == 'one' and nl:
                if nl > 1 and len(case['l']) != nl:
                    continue
                got = [0.] * 3
                for j in range(nl):
                    run.fill(lambda i, k, n: (j + .5) / nl, lambda i, k, n: (.2, .6))
                    got = add(got, run(o, d, Rng(lambda i: .4)))
                ctx.close(mul(got, 1. / nl), w, 'radiance', tag, tol=2e-5)
                ctx.step(nl)
            else:
                for f in FILL[:2 if dep == 2 else 1]:
                    run.fill(*f)
                    run.n = 0
                    got = run(o, d, Rng(lambda i: (.1, .5, .8)[i % 3]))
                    ctx.close(got, w, 'radiance', tag, tol=2e-5)
                    ctx.check(run.n <= 2 ** dep, 'bounded', '%s: %d rays' % (tag, run.n))
                    ctx.step()
            if any(w):
                first = first or (o, d, got)
            ctx.state(case['k'], case['s'], case['l'], case['g'], dep, o, d)
            ctx.outcome('%s/%s' % (case['k'], 'dark' if not any(w) else 'lit'))
        on_time(run, ctx, '%s lights %s %s depth %d' % (case['s'], case['l'], case['g'], dep))
        if first and case['g'] != 'one':
            run.fill(*FILL[0])
            ctx.close(run(first[0], first[1], Rng(lambda i: .4)), first[2], 'again', '%s lights %s' % (case['s'], case['l']))
    ctx.trace()
    ctx.sample(case)


def short(v):
    return '(%s)' % ','.join('%.3g' % x for x in v)


def run_path0(case, ctx):
    """no bounce: direct light by one light, averaged over the lights"""
    objs = SC[case['s']]
    for k in range(8):
        ls = [l for i, l in enumerate(DL) if k >> i & 1]
        sc_ = build(objs, ls)
        ref = Ref(objs, ls)
        run = Run(sc_, PathIntegrator(0))
        for o, d in rays_()[k % 3::3]:
            w = want(ref, o, d, 1, ctx)
            if w is None:
                continue
            got = [0.] * 3
            n = max(1, len(ls))
            for j in range(n):
                run.fill(lambda i, k_, n_: (j + .5) / n, lambda i, k_, n_: (.2, .6))
                got = add(got, run(o, d, Rng(lambda i: .4)))
                ctx.step()
            ctx.close(mul(got, 1. / n), w, 'radiance', '%s lights %s path depth 0 from %s to %s' % (case['s'], ls, short(o), short(d)), tol=2e-5)
            ctx.state('path0', case['s'], k, o, d)
        on_time(run, ctx, '%s path' % case['s'])
    ctx.trace()


def run_walk(case, ctx):
    """purely specular walks: no choice but roulette; up to depth 5 one roulette decision, averaged exactly"""
    objs = SC[case['s']]
    for ls, sig in (([], 0.), (['point'], 0.), (['sky'], .3), (['spot'], 0.))[:case['q'] + 1]:
        sc_ = build(objs, ls, lit(objs))
        ref = Ref(objs, ls, sig)
        for dep in range(0, 6):
            run = Run(sc_, PathIntegrator(dep), sig)
            for o, d in rays_()[::1 if dep == 5 or case['q'] == 3 else 2]:
                # walks that reach something diffuse go on in random directions: only their first vertices are compared
                w = want(ref, o, d, dep + 1, ctx)
                if w is None or not specular_walk(objs, o, d, dep + 1):
                    continue
                tag = '%s lights %s path depth %d from %s to %s' % (case['s'], ls, dep, short(o), short(d))
                run.fill(*FILL[0])

                def at(c):
                    ctx.step()
                    return run(o, d, Rng(lambda i: c))
                got = at(0.)
                if dep == 5:
                    # one roulette decision: the chance to go on is where the outcome switches
                    stop = at(.99999)
                    if not isclose(got, stop, 1e-12):
                        lo, hi = 0., .99999
                        for i in range(20):
                            mid = (lo + hi) / 2
                            x = at(mid)
                            if isclose(x, got, 1e-12):
                                lo = mid
                            else:
                                ctx.close(x, stop, 'roulette', tag)
                                hi = mid
                        got = [x + lo * (y - x) for x, y in zip(stop, got)]
                        ctx.outcome('roulette')
                ctx.close(got, w, 'radiance', tag, tol=2e-5)
                ctx.state('walk', case['s'], ls, dep, o, d)
                ctx.outcome('walk/%d' % dep)
    # always going on still ends
    run = Run(build(objs, []), PathIntegrator(12))
    for o, d in rays_()[::5]:
        run.fill(*FILL[0])
        got = run(o, d, Rng(lambda i: 0.))
        ctx.check(all(x == x and x < INF for x in got), 'bounded', '%s: %r' % (case['s'], got))
    ctx.trace()


def specular_walk(objs, o, d, depth):
    """the walk meets mirrors (or one-way glass) until it ends, its last surface or what is dark"""
    for i in range(depth):
        h = trace(objs, o, d)
        if h is None:
            return True
        t, n, ob = h
        m = ob['m']
        p, wo = add(o, mul(d, t)), mul(d, -1.)
        if m['k'] == 'matte':
            return i == depth - 1 or not any(m['r'])
        if m['k'] == 'mirror':
            d = sub(mul(n, 2 * dot(wo, n)), wo)
        elif not any(m['r']):
            d, r = refract(wo, n, m['e'])
            if d is None:
                return True
        else:
            return False
        o = p
    return True


class Lazy(object):
    """sample values chosen when read; enumerates every combination"""
    def __init__(self):
        self.script, self.pos = [], 0

    def __getitem__(self, i):
        if self.pos == len(self.script):
            self.script.append(0)
        v = self.script[self.pos]
        self.pos += 1
        return (.25, .75)[v]

    def next(self):
        self.pos = 0
        while self.script and self.script[-1]:
            self.script.pop()
        if self.script:
            self.script[-1] = 1
        return bool(self.script)


def run_choice(case, ctx):
    """glass: every choice of component along paths of one bounce, weighted equally"""
    objs = SC[case['s']]
    o, d = rays_()[case['i']]
    for ls in ([], ['point']):
        ref = Ref(objs, ls)
        run = Run(build(objs, ls), PathIntegrator(1))
        w = want(ref, o, d, 2, ctx)
        if w is None:
            return
        lz = Lazy()
        for i in range(len(run.s.n1D)):
            run.s.oneD[i] = lz
        for i in range(len(run.s.n2D)):
            run.s.twoD[i] = [(.3, .6)]
        h = trace(objs, o, d)
        if h and h[2]['m']['k'] == 'matte' and any(h[2]['m']['r']):
            continue
        got, tot = [0.] * 3, 0.
        while True:
            lz.pos = 0
            r = run(o, d, Rng(lambda i: .4))
            p = .5 ** len(lz.script)
            got, tot = add(got, mul(r, p)), tot + p
            ctx.step()
            if not lz.next():
                break
        ctx.close(tot, 1., 'choices', 'weights')
        ctx.close(got, w, 'radiance', '%s lights %s path depth 1 from %s to %s' % (case['s'], ls, short(o), short(d)), tol=2e-5)
        on_time(run, ctx, '%s path' % case['s'])
        ctx.state('choice', case['s'], ls, case['i'])
    ctx.trace()


def run_round(case, ctx):
    """a sampler may round the number of samples per light: an average over equal samples stays the same"""
    objs = SC[case['s']]
    if case['e']:
        objs = [Dk((0., 0., 0.), 4.), Dk((0., 0., 1.), .5, 2, True, BLACK, E1), Bl((-1., .5, 1.), .4, BLACK, E2)]
    ls = ['point', 'spot', 'distant']
    for ns in (1, 3, 5):
        sc_ = build(objs, ls, case['e'], ns)
        for up in (lambda n: 1 << (n - 1).bit_length(), lambda n: n * 3, lambda n: n):
            plain, run = Run(sc_, integ('all', 2)), Run(sc_, integ('all', 2), sampler=Rounder(up))
            counts = [up(int(l.ns)) for l in sc_.lights]
            ctx.check(sorted(n for n in run.s.n2D) == sorted(counts * 2), 'round', '%s samples: %s requested' % (counts, run.s.n2D))
            for fill in FILL:
                plain.fill(*fill)
                run.fill(*fill)
                for o, d in rays_()[::9]:
                    a, b = plain(o, d, Rng(lambda i: .4)), run(o, d, Rng(lambda i: .4))
                    ctx.close(b, a, 'round', '%s %d samples per light, rounded to %d' % (case['s'], ns, up(ns)))
                    ctx.step(2)
                # samples of different worth are averaged
                h = FILL[1 - FILL.index(fill)]
                run.fill(lambda i, k, n: (fill, h)[k % 2][0](i, k, n), lambda i, k, n: (fill, h)[k % 2][1](i, k, n))
                plain2 = Run(sc_, integ('all', 2))
                plain2.fill(*h)
                if len(set(counts)) == 1:
                    n = counts[0]
                    for o, d in rays_()[::9]:
                        a, b, c = [r(o, d, Rng(lambda i: .4)) for r in (plain, plain2, run)]
                        w = add(mul(a, (n + 1) // 2 / n), mul(b, n // 2 / n))
                        ctx.close(c, w, 'average', '%s %d samples per light, rounded to %d' % (case['s'], ns, n))
                        ctx.step(3)
            ctx.state('round', case['s'], case['e'], ns, counts)
    ctx.trace()


def run_pairs(case, ctx):
    objs = SC[case['s']]
    sc_ = build(objs, ['point', 'spot'], True)
    run = Run(sc_, integ(case['g'], 3))
    rs = rays_()[1::4]
    run.fill(*FILL[0])
    rng = lambda: Rng(lambda i: (.1, .5, .8)[i % 3])
    alone = [run(o, d, rng()) for o, d in rs]
    for i, a in enumerate(rs):
        for j, b in enumerate(rs):
            shared = Intersection()
            run(a[0], a[1], rng(), shared)
            got = run(b[0], b[1], rng(), shared)
            ctx.close(got, alone[j], 'history', '%s %s: ray %d after %d' % (case['s'], case['g'], j, i))
            ctx.step(2)
            ctx.state('pairs', case['s'], case['g'], i, j)
    ctx.trace()


# receivers p with normal n seen along wo; emitters; blockers: (objects, camera point, looked-at point, tolerance)
AREA = [
    ([Dk((0., 0., 0.), 4.), Dk((0., 0., 1.), .5, 2, True, BLACK, E1)], (1., 1., 1.), (.1, .2, 0.)),
    ([Dk((0., 0., 0.), 4.), Dk((0., 0., .3), .8, 2, True, BLACK, E1)], (2., 1., .2), (.1, .2, 0.)),
    ([Dk((0., 0., 0.), 4.), Dk((0., 0., 1.), .5, 2, False, BLACK, E1)], (1., 1., .5), (.1, .2, 0.)),
    ([Dk((0., 0., 0.), 4., m=RED), Bl((.2, .1, 1.2), .5, BLACK, E2)], (1., 1., 1.), (.3, -.2, 0.)),
    ([Dk((0., 0., 0.), 4.), Dk((1., 0., .7), .6, 0, True, BLACK, E2)], (-1., .3, 1.), (-.2, .1, 0.)),
    ([Dk((0., 0., 0.), 4.), Dk((0., 0., 1.5), .8, 2, True, BLACK, E1), Dk((.5, 0., .8), .5, 2, False)], (1., 1.5, .6), (.0, .1, 0.)),
    ([Dk((0., 0., 0.), 4.), Dk((0., 0., 1.5), .6, 2, True, BLACK, E1), Bl((-1., .5, 1.), .4, BLACK, E2)], (1., 1., .6), (.2, .1, 0.)),
    ([Dk((0., 0., 0.), 4., m=dict(k='plastic', r=(.5, .4, .3))), Dk((0., 0., 1.), .7, 2, True, BLACK, E1)], (1.1, .9, .8), (-.3, -.25, 0.)),
    ([Dk((0., 0., 0.), 4., m=dict(k='plastic', r=(.1, .1, .1))), Bl((0., 0., 1.), .5, BLACK, E1), Dk((1.3, 0., .6), .5, 0, True, BLACK, E2)], (.9, .5, .6), (.2, .1, 0.)),
    # one emitter partly hides another
    ([Dk((0., 0., 0.), 4.), Dk((.1, 0., 1.2), 1., 2, True, BLACK, E1), Dk((.25, .05, .6), .4, 2, True, BLACK, E2)], (1.4, 1., .4), (.2, .1, 0.)),
]


def area_ref(objs, p, n, wo, f):
    out = [0.] * 3
    N = 60
    for ob in objs:
        if not ob['e']:
            continue
        for i in range(N):
            for j in range(N):
                u, v = (i + .5) / N, (j + .5) / N
                if ob['s'] == 'ball':
                    z = 1 - 2 * u
                    r, ph = math.sqrt(1 - z * z), 2 * math.pi * v
                    m = [r * math.cos(ph), r * math.sin(ph), z]
                    q, a = add(ob['c'], mul(m, ob['r'])), 4 * math.pi * ob['r'] ** 2
                else:
                    r, ph = ob['r'] * math.sqrt(u), 2 * math.pi * v
                    x, y = r * math.cos(ph), r * math.sin(ph)
                    m = [1., 0., 0.] if ob['a'] == 0 else [0., 0., 1.]
                    q = add(ob['c'], [0., x, y] if ob['a'] == 0 else [x, y, 0.])
                    a = math.pi * ob['r'] ** 2
                    if ob['f']:
                        m = mul(m, -1.)
                w = sub(q, p)
                d = norm(w)
                w = mul(w, 1 / d)
                if dot(w, m) >= 0 or dot(w, n) <= 0:
                    continue
                try:
                    if trace(objs, p, w, EPS, d - EPS):
                        continue
                except Edge:
                    pass
                out = add(out, mul(cut(f(w), ob['e']), dot(w, n) * -dot(w, m) / (d * d) * a / (N * N)))
    return out


def run_area(case, ctx):
    objs, cam, at = AREA[case['a']]
    g, N = case['g'], case['n']
    o, d = list(cam), unit(sub(at, cam))
    n, wo = [0., 0., 1.], mul(d, -1.)
    sc_ = build(objs, [], True, N * N if g == 'all' else 1)
    nl = len(sc_.lights)
    isect = Intersection()
    ray = geo.RayDifferential(Pt(o), V(d), time=.3)
    sc_.intersect(ray, isect)
    bsdf = isect.get_bsdf(ray)
    kd = objs[0]['m']
    f = (lambda w: [x / math.pi for x in kd['r']]) if kd['k'] == 'matte' else lambda w: L(bsdf.f(V(wo), V(w)))
    w = area_ref(objs, list(at), n, wo, f)
    # depth limits: paths may run on from the receiver to the (black) emitters, which must not be counted again
    run = Run(sc_, integ(g, 1))
    com = lambda k: ((k * 7 + .5) / (N * N)) % 1.
    pos = lambda k: ((k % N + .5) / N, (k // N + .5) / N)
    before = [L(l.power(sc_)) for l in sc_.lights]
    quiet = Rng(lambda i: .4)
    if g == 'all':
        run.fill(lambda i, k, n_: com(k), lambda i, k, n_: pos(k))
        got = run(o, d, quiet)
        ctx.step(N * N * nl)
    elif g == 'whitted':
        M = 8 if N == 12 else 14
        got = [0.] * 3
        for k in range(M ** 3):
            u = ((k % M + .5) / M, (k // M % M + .5) / M, (k // M // M + .5) / M)
            got = add(got, run(o, d, Rng(lambda i: u[i % 3])))
            ctx.step()
        got = mul(got, M ** -3)
    else:
        got = [0.] * 3
        for j in range(nl):
            for k in range(N * N):
                # component choices (plastic has two lobes) and the light choice are strata of their own
                for c in range(2 if kd['k'] == 'plastic' else 1):
                    lc = (j + .5) / nl
                    if kd['k'] == 'plastic':
                        lc = (j + (c + .5) / 2) / nl if nl == 2 else (c + .5) / 2
                    run.fill(lambda i, k_, n_: lc, lambda i, k_, n_: pos(k))
                    got = add(got, mul(run(o, d, quiet), .5 if kd['k'] == 'plastic' else 1.))
                    ctx.step()
        got = mul(got, 1. / (N * N * nl))
    tag = '%s, emitters of scene %d' % (g, case['a'])
    if kd['k'] == 'plastic' and nl == 2 and g in ('one', 'path'):
        # the same number chooses light and lobe: not a fair estimate
        ctx.skip()
    else:
        ctx.close(got, w, 'radiance', tag, tol=TOL.get((case['a'], g), .03))
        if MC_SHOW:
            print(case, [round(x / y - 1, 4) if y else x for x, y in zip(got, w)])
    ctx.check(before == [L(l.power(sc_)) for l in sc_.lights], 'light-changed', tag)
    on_time(run, ctx, tag)
    ctx.state('area', case['a'], g)
    ctx.outcome('area/%s' % g)
    ctx.trace()


TOL = {}
import os
MC_SHOW = os.environ.get('MC_SHOW')


def run_diff(case, ctx):
    """reflected and refracted rays carry first-order differentials"""
    objs = SC[case['s']]
    sc_ = build(objs, [])
    inside = [((.1, .2, .6), unit(x)) for x in ((1., .2, .3), (-.3, .8, -.5), (.1, -.2, 1.))] if case['s'] in ('bead', 'clear') else []
    for o, d in rays_() + inside:
        try:
            h = trace(objs, o, d)
        except Edge:
            ctx.skip()
            continue
        if h is None or h[2]['m']['k'] == 'matte':
            continue
        t, n, ob = h
        m = ob['m']
        dl = 1e-4
        ax = unit(cross(d, [.3, .5, .7]))
        ay = cross(d, ax)
        for off in (0., 1.):
            nb = []
            for a in (ax, ay):
                nb.append((add(o, mul(a, off * dl)), unit(add(d, mul(a, dl)))))
            ray = geo.RayDifferential(Pt(o), V(d), 0., INF, 1, .3)
            ray.has_differentials = True
            ray.rxOrigin, ray.rxDirection, ray.ryOrigin, ray.ryDirection = Pt(nb[0][0]), V(nb[0][1]), Pt(nb[1][0]), V(nb[1][1])
            isect = Intersection()
            if not sc_.intersect(ray, isect):
                ctx.fail('hit', 'missed')
                continue
            bsdf = isect.get_bsdf(ray)
            for what, fn in (('reflected', specular_reflect), ('refracted', specular_transmit)):
                if what == 'refracted' and m['k'] != 'glass':
                    continue

                def out(o_, d_):
                    h_ = [x for x in hits(ob, o_, d_) if x[0] and x[0] > EPS]
                    if not h_:
                        return None
                    t_, n_ = min(h_)[:2]
                    wo = mul(d_, -1.)
                    p_ = add(o_, mul(d_, t_))
                    if what == 'reflected':
                        return p_, sub(mul(n_, 2 * dot(wo, n_)), wo)
                    return p_, refract(wo, n_, m['e'])[0]
                got = []

                class R(object):
                    def li(self, scene, rd, sample, isect, rng=None):
                        got.append(rd)
                        return Spectrum(1.), Spectrum(1.)
                fn(ray, bsdf, isect, R(), sc_, None, Rng(lambda i: .4))
                p0, w0 = out(o, d)
                tag = '%s %s ray from %s to %s' % (case['s'], what, short(o), short(d))
                if w0 is None or (what == 'reflected' and m['k'] == 'glass' and not any(m['r'])):
                    ctx.check(not got, 'spawned', tag)
                    continue
                if not ctx.check(len(got) == 1, 'spawned', tag):
                    continue
                rd = got[0]
                ctx.close(L(rd.d), w0, 'spawned-direction', tag)
                ctx.close(L(rd.o), p0, 'spawned-origin', tag, tol=1e-5)
                ctx.check(float(rd.time) == .3 and int(rd.depth) == 2 and float(rd.maxt) == INF and 0 < float(rd.mint) < 1e-2, 'spawned-ray', tag)
                if not ctx.check(bool(rd.has_differentials), 'spawned-differentials', tag):
                    continue
                for k, (ro, rdir) in enumerate(((rd.rxOrigin, rd.rxDirection), (rd.ryOrigin, rd.ryDirection))):
                    x = out(*nb[k])
                    if x is None or x[1] is None:
                        ctx.skip()
                        continue
                    # first order: compare the change, relative to the size of the step
                    s = max(1., norm(sub(x[1], w0)) / dl, norm(sub(x[0], p0)) / dl)
                    ctx.close(mul(sub(L(ro), p0), 1 / dl / s), mul(sub(x[0], p0), 1 / dl / s), 'differential-origin', tag, tol=2e-2)
                    ctx.close(mul(sub(L(rdir), w0), 1 / dl / s), mul(sub(x[1], w0), 1 / dl / s), 'differential-direction', tag, tol=2e-2)
                    ctx.step()
                ctx.state('diff', case['s'], what, off, o, d)
                ctx.outcome('diff/' + what)
    ctx.trace()


def run_cdf(case, ctx):
    for k in range(1, 8):
        ls = [l for i, l in enumerate(DL) if k >> i & 1]
        for s in ('floor', 'lamp'):
            sc_ = build(SC[s], ls, True)
            dist = compute_light_sampling_cdf(sc_)
            ps = [float(l.power(sc_).y()) for l in sc_.lights]
            for j in range(200):
                i, p = dist.sample_dis((j + .5) / 200)
                ctx.close(float(p), ps[i] / sum(ps), 'light-chance', '%s %s light %d' % (s, ls, i))
                lo, hi = sum(ps[:i]) / sum(ps), sum(ps[:i + 1]) / sum(ps)
                ctx.check(lo - 1e-9 <= (j + .5) / 200 <= hi + 1e-9, 'light-choice', '%s %s' % (s, ls))
            ctx.state('cdf', s, ls)
    ctx.trace()


# inside of a diffuse sphere with lights at the centre: every direction brings back the same light, so that a path's estimate
# depends on nothing but the decisions to go on
OVEN = [((.9, .8, .7), 1., 1), ((.5, .25, .9), 2., 1), ((.95, .95, .95), .5, 2), ((.2, .1, .05), 1., 1), ((1., .0, .4), 1.5, 2)]


def run_oven(case, ctx):
    (rho, R, nl), dep = OVEN[case['a']], case['d']
    t = Transform.translate(V((.3, -.2, .1)))
    ball = Sphere(t, t.inverse(), True, R, -R, R, 360.)
    inten = [(3., 2., 5.), (1., 4., 2.)][:nl]
    sc_ = Scene(SimpleAggregate([GeometricPrimitive(ball, mat(matte(rho)), None)], True), [PointLight(t, Spectrum.from_rgb(list(i))) for i in inten], None)
    run = Run(sc_, PathIntegrator(dep))
    base = [mul(cut(i, rho), 1 / math.pi / R / R) for i in inten]
    tag0 = 'diffuse sphere %r radius %g, %d lights, depth %d' % (rho, R, nl, dep)
    # one light is chosen at each vertex and weighted by their number
    for o, d in (((.3, -.2, .1), unit((.2, .3, -.9))), ((.3, -.2 + .4 * R, .1), unit((.7, -.4, .1))))[:case['n']]:
        for f in FILL[:case['n']]:
            run.fill(*f)
            tag = '%s from %s to %s' % (tag0, short(o), short(d))

            def at(us):
                """draw number k is us[k] where given, else .35"""
                seen = [0]

                def draw(i):
                    seen[0] = i + 1
                    return us.get(i, .35)
                ctx.step()
                return run(o, d, Rng(draw)), seen[0]

            def light(j):
                return base[min(int(j * nl), nl - 1)]
            # draws that decide whether the path goes on: large values end it there, small ones do not
            LOW, HIGH = 1e-9, .97
            stops, base_ = [], {}
            go, n = at({})
            i = 0
            while i < n:
                hi_ = at({**base_, i: HIGH})
                if hi_[1] == i + 1:
                    lo_ = at({**base_, i: LOW})
                    if lo_[1] > i + 1 and not isclose(hi_[0], lo_[0], 1e-12):
                        stops.append((i, hi_[0]))
                        base_[i] = LOW
                        go, n = lo_
                i += 1
            # after the fourth vertex the choice of light is drawn as well (here .35)
            u1 = f[0](0, 0, 1)
            part, thr = [0.] * 3, [1.] * 3
            want = [0.] * 3
            for k in range(dep + 1):
                want = add(want, mul(cut(light(u1 if k < PathIntegrator.SAMPLE_DEPTH else .35), [r ** k for r in rho]), nl))
            # expectation over the decisions
            def expect(k):
                if k == len(stops):
                    return go
                i, v = stops[k]
                lo, hi = 0., .9999999
                for _ in range(20):
                    mid = (lo + hi) / 2
                    us = {q: LOW for q, _ in stops[:k]}
                    us[i] = mid
                    if isclose(at(us)[0], v, 1e-12):
                        hi = mid
                    else:
                        lo = mid
                rest = expect(k + 1)
                return [lo * b + (1 - lo) * a for a, b in zip(v, rest)]
            got = expect(0)
            ctx.close(got, want, 'radiance', tag, tol=1e-5)
            if dep > 4:
                ctx.outcome('oven/%d decisions' % len(stops))
            ctx.state('oven', case['a'], dep, o, d)
    ctx.trace()


def RUN(case, ctx):
    return dict(chain=run_chain, media=run_chain, path0=run_path0, walk=run_walk, choice=run_choice, round=run_round, pairs=run_pairs, area=run_area, diff=run_diff, cdf=run_cdf, oven=run_oven)[case['k']](case, ctx)
