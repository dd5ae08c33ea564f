"""R01: the render loop offers every sample once and rejects broken radiance."""
import contextlib
import copy
import io
import itertools
from mc.pt import *
from mc.core import isclose
import checks.I01 as ig
from pytracer import Spectrum
from pytracer.renderer import SamplerRenderer, SamplerRendererTask, Renderer
from pytracer.sampler import StratifiedSampler, Sample
from pytracer.film import ImageFilm
from pytracer.filter import BoxFilter
from pytracer.camera import PerspectiveCamera
from pytracer.transform import Transform, AnimatedTransform

RULE = ('every image window up to the size x samples per pixel x task count x task order with spied film, camera and integrator; every placement of up to two faulty radiances of every kind among the samples of a render; '
        'weights, misses, refused batches, repeated renders; small pictures against a reference tracer; states are (window, tasks, samples) and fault placements')
ASSUME = ['tasks run one after another here (contributions from threads are F02)', 'luminance between zero and -EPS may or may not be kept']
NAN = float('nan')
GOOD = (.25, .5, 1.)
FAULTS = {'nan0': (NAN, 1., 1.), 'nan2': (1., 1., NAN), 'nan': (NAN,) * 3, 'inf0': (INF, 0., 0.), 'inf1': (1., INF, 1.), 'inf': (INF,) * 3, 'ninf': (0., 0., -INF), 'mixed': (INF, 0., -INF),
          'mixed2': (-INF, INF, 1.), 'neg': (-1., -1., -1.), 'neg1': (1., -2., 1.), 'neg2': (0., 0., -1.), 'infneg': (-3., INF, -1.)}


class Film(object):
    def __init__(self, log):
        self.log = log

    def add_sample(self, sample, l):
        self.log.append(('add', key(sample), [float(x) for x in l]))

    def write_image(self, *a):
        self.log.append(('write',))


def key(s):
    return (float(s.imageX), float(s.imageY), float(s.lens_u), float(s.time))


class Cam(object):
    def __init__(self, film, log, wt):
        self.film, self.log, self.wt = film, log, wt

    def generate_ray_differential(self, s):
        r = geo.RayDifferential(Pt((s.imageX, s.imageY, 5.)), V((0., 0., -1.)), 0., INF, 0, s.time)
        r.has_differentials = True
        r.rxOrigin, r.ryOrigin = Pt((s.imageX + 1., s.imageY, 5.)), Pt((s.imageX, s.imageY + 1., 5.))
        r.rxDirection, r.ryDirection = V((.2, 0., -1.)), V((0., .4, -1.))
        w = self.wt(s)
        self.log.append(('ray', key(s), w))
        return w, r


class Light(object):
    def __init__(self, c):
        self.c = c

    def le(self, r):
        return Spectrum.from_rgb(list(self.c))


class World(object):
    """left half is hit, the right half is not"""
    def __init__(self, lights=(), split=INF):
        self.lights, self.split = list(lights), split

    def intersect(self, ray, isect):
        return float(ray.o.x) < self.split

    def intersect_p(self, ray):
        return float(ray.o.x) < self.split


class Integ(object):
    def __init__(self, log, rad):
        self.log, self.rad = log, rad
        self.n = 0
        self.prep = 0

    def preprocess(self, scene, camera, renderer):
        self.prep += 1

    def request_samples(self, sampler, sample, scene):
        self.off = (sample.add_1d(2), sample.add_2d(3))

    def li(self, scene, renderer, ray, isect, sample, rng=None):
        self.log.append(('li', key(sample), L(ray.o), float(ray.time), [norm(sub(L(ray.rxOrigin), L(ray.o))), norm(sub(L(ray.ryDirection), L(ray.d)))],
                         len(sample.oneD[self.off[0]]), len(sample.twoD[self.off[1]]), id(isect)))
        self.n += 1
        return self.rad(sample, self.n - 1)


def own(s):
    return [.1 + .01 * float(s.imageX), 2. + .1 * float(s.imageY), float(s.lens_u)]


def sp(c):
    return Spectrum.from_rgb(list(c))


def CASES(tier):
    q = tier == 'quick'
    cs = []
    for w in range(1, 5 if q else 8):
        for h in range(1, 4 if q else 8):
            for o in ((0, 0), (3, -2)):
                for n in range(1, 9 if q else 17):
                    if q and o != (0, 0) and n % 3:
                        continue
                    cs.append(dict(k='tasks', w=w, h=h, o=list(o), n=n))
    for f in sorted(FAULTS):
        cs.append(dict(k='fault', f=f, w=2, h=2, s=2 if q else 3))
    cs += [dict(k='weight', i=i) for i in range(4)]
    cs += [dict(k='miss', i=i) for i in range(4)]
    cs += [dict(k='again'), dict(k='refuse'), dict(k='visible'), dict(k='volume'), dict(k='empty')]
    for s in sorted(ig.SC):
        cs.append(dict(k='picture', s=s, w=5 if q else 9, h=4 if q else 7))
    return cs


def setup(w, h, o, st, rad=None, wt=None, world=None, jitter=True):
    log = []
    film = Film(log)
    cam = Cam(film, log, wt or (lambda s: 1.))
    sam = StratifiedSampler(o[0], o[0] + w, o[1], o[1] + h, st[0], st[1], jitter, .25, .75)
    it = Integ(log, rad or (lambda s, n: sp(own(s))))
    ren = SamplerRenderer(sam, cam, it, None)
    return log, ren, sam, it, cam, world or World()


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def cover(ctx, tag, log, w, h, o, spp):
    adds = [e for e in log if e[0] == 'add']
    ctx.check(len(set(e[1] for e in adds)) == len(adds), 'offered-twice', tag)
    cnt = {}
    for e in adds:
        p = (math.floor(e[1][0]), math.floor(e[1][1]))
        cnt[p] = cnt.get(p, 0) + 1
    want = {(x, y): spp for x in range(o[0], o[0] + w) for y in range(o[1], o[1] + h)}
    ctx.check(cnt == want, 'samples-of-pixels', '%s: %r' % (tag, sorted((k, cnt.get(k), want.get(k)) for k in set(cnt) | set(want) if cnt.get(k) != want.get(k))[:4]))
    return adds


def run_tasks(case, ctx):
    w, h, o, n = case['w'], case['h'], case['o'], case['n']
    for st in ((1, 1), (2, 1), (1, 3), (2, 2), (3, 3)):
        for order in (1, -1):
            log, ren, sam, it, cam, world = setup(w, h, o, st)
            tag = '%dx%d at %r, %r samples, %d tasks' % (w, h, o, st, n)
            sample = Sample(sam, it, None, world)
            for i in list(range(n))[::order]:
                quiet(SamplerRendererTask(world, ren, cam, sam, sample, False, i, n))
            adds = cover(ctx, tag, log, w, h, o, st[0] * st[1])
            for e in adds:
                x, y, u, t = e[1]
                ctx.close(e[2], [.1 + .01 * x, 2. + .1 * y, u], 'radiance-of-sample', tag)
            lis = [e for e in log if e[0] == 'li']
            ctx.check(sorted(e[1] for e in lis) == sorted(e[1] for e in adds), 'traced-once', tag)
            s = 1 / math.sqrt(st[0] * st[1])
            for e in lis:
                ctx.check(e[2][:2] == list(e[1][:2]) and e[3] == e[1][3], 'ray-of-sample', tag)
                ctx.close(e[4], [s, .4 * s], 'differential-scale', tag)
                ctx.check(e[5] == 2 and e[6] == 3, 'requested-samples', tag)
            ctx.check(not any(e[0] == 'write' for e in log), 'written', tag)
            ctx.step(len(adds))
            ctx.state('tasks', w, h, o, n, st, order)
    ctx.trace()
    ctx.sample(case)


def run_fault(case, ctx):
    w, h, st = case['w'], case['h'], (case['s'], 1)
    N = w * h * st[0]
    f = FAULTS[case['f']]
    for g in [None] + sorted(FAULTS):
        for i in range(N):
            for j in range(N) if g else (i,):
                if g and i == j or (g == case['f'] and j < i):
                    continue
                bad = {i: f}
                if g:
                    bad[j] = FAULTS[g]
                log, ren, sam, it, cam, world = setup(w, h, (0, 0), st, lambda s, n: sp(bad[n]) if n in bad else sp(own(s)), jitter=False)
                quiet(lambda: ren.render(world))
                tag = 'faults %r' % {k: v for k, v in bad.items()}
                order = [e[1] for e in log if e[0] == 'li']
                adds = {e[1]: e[2] for e in log if e[0] == 'add'}
                if not ctx.check(len(order) == N == len(adds), 'samples-of-pixels', tag):
                    continue
                for k in range(N):
                    x, y, u, t = order[k]
                    want = [0.] * 3 if k in bad else [.1 + .01 * x, 2. + .1 * y, u]
                    ctx.check(isclose(adds[order[k]], want), 'rejected' if k in bad else 'other-sample', '%s, sample %d: %r' % (tag, k, adds[order[k]]))
                ctx.check([e[0] for e in log].count('write') == 1 and log[-1][0] == 'write', 'written-once', tag)
                ctx.step()
                ctx.state('fault', i, j, case['f'], g)
        ctx.outcome('fault/%s/%s' % (case['f'], g))
    ctx.trace()


WT = [lambda s: .5, lambda s: 0., lambda s: 0. if float(s.imageX) < 1 else 2., lambda s: 0. if float(s.imageY) >= 1 else .25]


def run_weight(case, ctx):
    wt = WT[case['i']]
    shared = sp(GOOD)
    for same in (False, True):
        rad = (lambda s, n: shared) if same else (lambda s, n: sp(own(s)))
        log, ren, sam, it, cam, world = setup(3, 2, (0, 0), (2, 1), rad, wt)
        quiet(lambda: ren.render(world))
        ws = {e[1]: e[2] for e in log if e[0] == 'ray'}
        for e in cover(ctx, 'weights', log, 3, 2, (0, 0), 2):
            x, y, u, t = e[1]
            base = GOOD if same else [.1 + .01 * x, 2. + .1 * y, u]
            ctx.close(e[2], mul(base, ws[e[1]]), 'weighted', 'sample at %r weight %r' % (e[1], ws[e[1]]))
            ctx.step()
        ctx.close(L(shared), GOOD, 'radiance-changed', 'radiance handed out by the integrator')
        ctx.state('weight', case['i'], same)
    ctx.trace()


def run_miss(case, ctx):
    ls = [[], [(1., 2., 3.)], [(1., 2., 3.), (.5, 0., .25)], [(0., 0., 0.)]][case['i']]
    tot = [sum(c[k] for c in ls) for k in range(3)]
    for split in (-1., 1., 2., 9.):
        log, ren, sam, it, cam, world = setup(3, 2, (0, 0), (2, 2), None, lambda s: .5, World([Light(c) for c in ls], split))
        quiet(lambda: ren.render(world))
        for e in cover(ctx, 'misses', log, 3, 2, (0, 0), 4):
            x, y, u, t = e[1]
            ctx.close(e[2], mul([.1 + .01 * x, 2. + .1 * y, u] if x < split else tot, .5), 'escaped' if x >= split else 'radiance-of-sample', '%d lights, sample at %r' % (len(ls), e[1]))
            ctx.step()
        ctx.state('miss', case['i'], split)
    ctx.trace()


def run_again(case, ctx):
    """rendering again gives every sample again and writes again"""
    for n in range(1, 4):
        log, ren, sam, it, cam, world = setup(2, 3, (1, 0), (1, 2))
        for i in range(n):
            del log[:]
            quiet(lambda: ren.render(world))
            cover(ctx, 'render %d of %d' % (i + 1, n), log, 2, 3, (1, 0), 2)
            ctx.check([e[0] for e in log].count('write') == 1 and log[-1][0] == 'write', 'written-once', 'render %d' % (i + 1))
            ctx.check(it.prep == i + 1, 'prepared', 'render %d: integrator prepared %d times' % (i + 1, it.prep))
            ctx.step()
        ctx.state('again', n)
    ctx.trace()


def run_refuse(case, ctx):
    """a sampler may refuse batches: exactly their samples are left out"""
    for bits in range(2 ** 6):
        log, ren, sam, it, cam, world = setup(3, 2, (0, 0), (2, 1))
        cnt = [0]
        seen = []

        class S(StratifiedSampler):
            def report_results(self, samples, rays, ls, isects):
                seen.append([key(s) for s in samples])
                cnt[0] += 1
                ctx.check(len(samples) == len(rays) == len(ls) == len(isects) == 2, 'batch', 'bits %d' % bits)
                for s_, r_, l_, i_ in zip(samples, rays, ls, isects):
                    e = [x for x in log if x[0] == 'li' and x[1] == key(s_)]
                    ctx.check(len(e) == 1 and e[0][7] == id(i_) and e[0][2] == L(r_.o), 'batch-record', 'bits %d: the ray and hit handed over belong to another sample' % bits)
                    ctx.close(L(l_), own(s_), 'batch-radiance', 'bits %d' % bits)
                ctx.check(len(set(map(id, isects))) == len(set(map(id, rays))) == len(set(map(id, ls))) == 2, 'batch-shared', 'bits %d' % bits)
                return bool(bits >> (cnt[0] - 1) & 1)

            def get_subsampler(self, num, c):
                r = super().get_subsampler(num, c)
                r.__class__ = S
                return r
        sam.__class__ = S
        quiet(lambda: ren.render(world))
        want = sorted(k for i, b in enumerate(seen) if bits >> i & 1 for k in b)
        ctx.check(len(seen) == 6 and sorted(e[1] for e in log if e[0] == 'add') == want, 'refused', 'batches %s' % bin(bits))
        ctx.state('refuse', bits)
        ctx.step()
    ctx.trace()


def run_visible(case, ctx):
    for wt in range(4):
        log, ren, sam, it, cam, world = setup(3, 2, (0, 0), (2, 1), None, WT[wt], World([], 1.5))
        sample = Sample(sam, it, None, world)
        quiet(SamplerRendererTask(world, ren, cam, sam, sample, True, 0, 1))
        ws = {e[1]: e[2] for e in log if e[0] == 'ray'}
        for e in cover(ctx, 'visibility', log, 3, 2, (0, 0), 2):
            on = e[1][0] < 1.5 and ws[e[1]] > 0
            ctx.check((sum(e[2]) > 0) == on, 'visible', 'sample at %r: %r' % (e[1], e[2]))
            ctx.step()
        ctx.state('visible', wt)
    ctx.trace()


class Fog(object):
    def __init__(self, t, e):
        self.t, self.e, self.prep = t, e, 0

    def preprocess(self, *a):
        self.prep += 1

    def request_samples(self, sampler, sample, scene):
        self.off = sample.add_1d(1)

    def li(self, scene, renderer, ray, sample, rng):
        return sp(self.e), sp(self.t)

    def transmittance(self, scene, renderer, ray, sample, rng):
        return sp(self.t)


def run_volume(case, ctx):
    for t in ((1., 1., 1.), (0., 0., 0.), (.5, .25, 1.)):
        for e in ((0., 0., 0.), (.3, 0., 2.)):
            log, ren, sam, it, cam, world = setup(3, 2, (0, 0), (2, 1), None, None, World([Light((1., 2., 3.))], 1.5))
            ren.vol_integrator = fog = Fog(t, e)
            quiet(lambda: ren.render(world))
            for a in cover(ctx, 'volume', log, 3, 2, (0, 0), 2):
                x, y, u, tm = a[1]
                b = [.1 + .01 * x, 2. + .1 * y, u] if x < 1.5 else [1., 2., 3.]
                ctx.close(a[2], [p * q + r for p, q, r in zip(b, t, e)], 'through-volume', 'sample at %r through %r + %r' % (a[1], t, e))
                ctx.step()
            ctx.check(fog.prep == 1, 'prepared', 'volume integrator')
            ctx.close(L(ren.transmittance(world, None, None)), t, 'transmittance', 'volume')
            ctx.state('volume', t, e)
    log, ren, sam, it, cam, world = setup(3, 2, (0, 0), (2, 1))
    ctx.close(L(ren.transmittance(world, None, None)), [1.] * 3, 'transmittance', 'nothing')
    s = Sample(sam, it, None, world)
    s.oneD, s.twoD = [[0., 0.]], [[(0., 0.)] * 3]
    r = geo.RayDifferential(Pt((0, 0, 5)), V((0, 0, -1)), 0., INF, 0, s.time)
    ctx.close(L(ren.li(world, r, s, None)[1]), [1.] * 3, 'transmittance', 'nothing in between')
    ctx.trace()


def run_empty(case, ctx):
    for w, h in ((0, 0), (0, 3), (3, 0)):
        log, ren, sam, it, cam, world = setup(w, h, (1, 1), (1, 2))
        quiet(lambda: ren.render(world))
        ctx.check([e[0] for e in log] == ['write'], 'empty', '%dx%d: %r' % (w, h, log[:3]))
        ctx.state('empty', w, h)
    ctx.trace()


def run_picture(case, ctx):
    """whole pictures against the reference tracer of I01, with real camera and film"""
    objs = ig.SC[case['s']]
    w, h = case['w'], case['h']
    ls = ['point', 'spot']
    scene = ig.build(objs, ls, ig.lit(objs))
    ref = ig.Ref(objs, ls)
    for name, g, depth in (('all', 'all', 2), ('whitted', 'whitted', 3)):
        for crop in ((0., 1., 0., 1.), (.3, .9, .2, .8)):
            film = ImageFilm(w, h, BoxFilter(.5, .5), list(crop), 'nowhere.png')
            out = []
            film.write_image = lambda *a: out.append(1)
            film.add_sample = lambda smp, l: got.append((copy.copy(smp), L(l)))
            got = []
            tr = Transform.look_at(Pt((1.1, 1.9, 1.7)), Pt((0., .1, .5)), V((0., 0., 1.)))
            cam = PerspectiveCamera(AnimatedTransform(tr, 0., tr, 1.), [-1., 1., -1., 1.], 0., 1., 0., 1e6, 50., film)
            x0, x1, y0, y1 = film.get_sample_extent()
            sam = StratifiedSampler(x0, x1, y0, y1, 1, 1, False, 0., 1.)
            ren = SamplerRenderer(sam, cam, ig.integ(g, depth), None)
            quiet(lambda: ren.render(scene))
            ctx.check(len(out) == 1, 'written-once', case['s'])
            pix = sorted((math.floor(float(m.imageX)), math.floor(float(m.imageY))) for m, l in got)
            ctx.check(pix == sorted((x, y) for x in range(x0, x1) for y in range(y0, y1)), 'samples-of-pixels', '%s: %r' % (case['s'], pix))
            for m, l in got:
                wt, ray = cam.generate_ray_differential(m)
                r = ig.want(ref, L(ray.o), L(ray.d), depth, ctx)
                if r is None:
                    continue
                ctx.close(l, r, 'picture', '%s %s sample at %.6g,%.6g' % (case['s'], name, m.imageX, m.imageY), tol=2e-5)
                ctx.outcome('picture/%s' % ('lit' if any(r) else 'dark'))
                ctx.step()
                ctx.state('picture', case['s'], name, crop, float(m.imageX), float(m.imageY))
    ctx.trace()


def RUN(case, ctx):
    return globals()['run_' + case['k']](case, ctx)
