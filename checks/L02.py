"""L02: projection, goniometric and environment lights."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile
from mc.pt import *
from mc.mip import Ref
from mc import shapes as sh
from mc import scenes as sc
from pytracer import Spectrum
from pytracer.light import ProjectionLight, GonioPhotometricLight, InfiniteAreaLight
from pytracer.light.utility import LightSample
from pytracer.aggregate import GeometricPrimitive, SimpleAggregate
from pytracer.scene import Scene

RULE = ('every light kind x placement (rigid, mirrored) x image file (also missing) x field of view: every receiver of a lattice, every random-number cell for rays leaving the light; environment lights: every cell of a complete sample grid '
        'and every direction of a complete sphere grid; states are (light, image, receiver, direction or sample cell)')
ASSUME = ['directions within 1e-9 of the border of a projection or of a cell of the sampling grid are left out', 'lights carry rigid or mirrored placements (scales are documented as unsupported)',
          'the power of a projection is its average pixel over the cone, as documented; images whose sides are powers of two']
PL = ('id', 'move', 'spin', 'mirror')
I = (3., .5, 2.)
REC = list(itertools.product((-1.5, .25, 2.), (-1., .5, 3.), (-2., .125, 1.25)))
FOV = [30., 75., 120.]


def _img(w, h, k):
    if k == 'dot':      # one bright pixel
        return [[[200., 100., 50.] if (s, t) == (w // 2, h // 3) else [0.] * 3 for s in range(w)] for t in range(h)]
    return [[[float((37 * (t * w + s) + 61 * c + k) % 251) for c in range(3)] for s in range(w)] for t in range(h)]


IMG = [_img(1, 1, 90), _img(2, 2, 5), _img(4, 2, 9), _img(2, 4, 11), _img(4, 4, 'dot'), _img(8, 4, 'dot'), _img(3, 2, 0), _img(5, 4, 77), None]
P2 = (0, 1, 2, 3, 4, 5)


def sp(c):
    return Spectrum.from_rgb(list(c))


class File(object):
    """the image as a file in a scratch directory"""
    def __init__(self, i):
        self.img = IMG[i]

    def __enter__(self):
        self.d = tempfile.mkdtemp()
        self.fn = os.path.join(self.d, 'light.png')
        if self.img is not None:
            import PIL.Image
            PIL.Image.fromarray(np.array(self.img, dtype=np.uint8)).save(self.fn)
        self.ref = [Ref([[p[c] for p in r] for r in self.img], 0) for c in range(3)] if self.img is not None else None
        self.w, self.h = (len(self.img[0]), len(self.img)) if self.img is not None else (1, 1)
        return self

    def at(self, s, t):
        return [r.tri(0, s, t) for r in self.ref] if self.ref else [1.] * 3

    def mean(self):
        return [r.lv[-1][0][0] for r in self.ref] if self.ref else [1.] * 3

    def top(self):
        return max(max(max(max(r) for r in c.lv[0]) for c in self.ref), 1.) if self.ref else 1.

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def m_pt(m, p):
    return [sum(m[i][k] * p[k] for k in range(3)) + m[i][3] for i in range(3)]


def m_v(m, p):
    return [sum(m[i][k] * p[k] for k in range(3)) for i in range(3)]


def CASES(tier):
    q = tier == 'quick'
    cs = []
    for pl in PL:
        for i in range(len(IMG)):
            for f in FOV:
                cs.append(dict(k='proj', pl=pl, i=i, fov=f))
            cs.append(dict(k='gonio', pl=pl, i=i))
            cs.append(dict(k='env', pl=pl, i=i, n=12 if q else 30))
    for i in range(len(IMG)):
        cs.append(dict(k='whole', i=i, n=40 if q else 160))
        cs.append(dict(k='enter', i=i))
    return cs


def vis_ok(ctx, vis, p, eps, q, tm, tag):
    r = vis.ray
    d = norm(sub(q, p))
    ctx.close(L(r.o), p, 'segment', tag)
    ctx.close(L(r.d), unit(sub(q, p)), 'segment', tag)
    ctx.close(float(r.mint), eps, 'segment', tag)
    ctx.check(.9999 * d <= float(r.maxt) <= d * (1 + 1e-9) and float(r.time) == tm, 'segment', '%s: %r %r' % (tag, r.maxt, r.time))


def positional(case, ctx, f, l, m, mi, scale, name):
    """scale(direction in the light's space) -> factors, or None when undecided"""
    pos = m_pt(m, (0., 0., 0.))
    top = f.top()
    ctx.check(bool(l.is_delta_light()), 'delta', name)
    ctx.check(float(l.pdf(Pt((1., 2., 3.)), V((0., 0., 1.)))) == 0., 'delta', name)
    lit = 0
    far = [m_pt(m, mul(unit(d), 3.)) for d in itertools.product((-.9, -.35, .1, .6), (-.8, -.1, .4), (.3, 1.))]
    for p in REC + far:
        if norm(sub(p, pos)) < 1e-6:
            continue
        w = scale(m_v(mi, unit(sub(p, pos))))
        if w is None:
            ctx.skip()
            continue
        tag = '%s %s image %d at %r' % (name, case['pl'], case['i'], p)
        q = Pt(p)
        s, wi, pdf, vis = l.sample_l(q, 1e-3, LightSample(.3, .4, .5), .6)
        d2 = dot(sub(p, pos), sub(p, pos))
        ctx.close([x * d2 / top for x in L(s)], [a * b / top for a, b in zip(I, w)], 'delivered', tag, tol=1e-6)
        ctx.close(L(wi), unit(sub(pos, p)), 'direction', tag)
        ctx.check(float(pdf) == 1. and L(q) == list(p), 'density', tag)
        vis_ok(ctx, vis, list(p), 1e-3, pos, .6, tag)
        lit += any(w)
        ctx.state(name, case['pl'], case['i'], p)
        ctx.step()
    ctx.outcome('%s lit=%s' % (name, lit > 0))
    return pos, top


US = [(0., 0., 0.), (.25, .75, .5), (.5, .5, .999), (.9, .1, .3), (.999, .999, .7), (.1, .6, .05), (.7, .3, .9), (.99, .4, 0.)] + list(itertools.product((.05, .45, .85, .97), (.05, .3, .55, .8), (.5,)))


def run_proj(case, ctx):
    fov = case['fov']
    t, ti, m, mi = sh.place(case['pl'])
    with File(case['i']) as f:
        l = quiet(ProjectionLight, t, sp(I), f.fn, fov)
        asp = float(f.w) / f.h
        sx, sy = (asp, 1.) if asp > 1 else (1., 1. / asp)
        k = math.tan(math.radians(fov) / 2)

        def scale(d):
            if abs(d[2]) < 1e-4:
                return None
            if d[2] <= 0:
                return [0.] * 3
            x, y = d[0] / d[2] / k, d[1] / d[2] / k
            if min(abs(abs(x) - sx), abs(abs(y) - sy)) < 1e-9:
                return None
            if abs(x) > sx or abs(y) > sy:
                return [0.] * 3
            return f.at((x + sx) / (2 * sx), (y + sy) / (2 * sy))
        pos, top = positional(case, ctx, f, l, m, mi, scale, 'projection %r' % fov)
        cw = math.cos(math.atan(k * math.hypot(sx, sy)))
        for u in US:
            r, n, pdf, s = l.sample_r(None, LightSample(*u), .2, .8, .7)
            tag = 'projection %r %s image %d u=%r' % (fov, case['pl'], case['i'], u)
            ctx.close(L(r.o), pos, 'leaving-from', tag)
            ctx.close(L(n), L(r.d), 'leaving-normal', tag)
            ctx.close(norm(L(r.d)), 1., 'leaving-unit', tag)
            ctx.check(float(r.time) == .7, 'leaving-time', tag)
            d = m_v(mi, L(r.d))
            # the cone holds the whole screen, and the density is the cone's
            ctx.close(d[2], 1 - u[0] + u[0] * cw if abs(d[2] - (1 - u[0] + u[0] * cw)) < abs(d[2] - (cw + u[0] * (1 - cw))) else cw + u[0] * (1 - cw), 'leaving-cone', tag, tol=1e-6)
            ctx.close(float(pdf) * 2 * math.pi * (1 - cw), 1., 'leaving-density', tag, tol=1e-6)
            w = scale(d)
            if w is None:
                ctx.skip()
            else:
                ctx.close([x / top for x in L(s)], [a * b / top for a, b in zip(I, w)], 'leaving-radiance', tag, tol=1e-5)
            ctx.state('proj-leave', case, u)
        if case['i'] in P2 or f.img is None:
            ctx.close([x / top for x in L(l.power(None))], [a * b * 2 * math.pi * (1 - cw) / top for a, b in zip(I, f.mean())], 'power', 'projection %r image %d' % (fov, case['i']), tol=1e-6)
    ctx.trace()
    ctx.sample(case)


def run_gonio(case, ctx):
    t, ti, m, mi = sh.place(case['pl'])
    with File(case['i']) as f:
        l = quiet(GonioPhotometricLight, t, sp(I), f.fn)

        def scale(d):
            if f.ref is None:
                return [1.] * 3
            if math.hypot(d[0], d[2]) < 1e-6:
                return None
            return f.at((math.atan2(d[2], d[0]) % (2 * math.pi)) / (2 * math.pi), math.acos(max(-1., min(1., d[1]))) / math.pi)
        pos, top = positional(case, ctx, f, l, m, mi, scale, 'goniometric')
        for u in US:
            r, n, pdf, s = l.sample_r(None, LightSample(*u), .2, .8, .7)
            tag = 'goniometric %s image %d u=%r' % (case['pl'], case['i'], u)
            ctx.close(L(r.o), pos, 'leaving-from', tag)
            ctx.close(L(n), L(r.d), 'leaving-normal', tag)
            ctx.close(norm(L(r.d)), 1., 'leaving-unit', tag)
            ctx.check(float(r.time) == .7, 'leaving-time', tag)
            ctx.close(float(pdf), 1 / (4 * math.pi), 'leaving-density', tag)
            w = scale(m_v(mi, L(r.d)))
            if w is not None:
                ctx.close([x / top for x in L(s)], [a * b / top for a, b in zip(I, w)], 'leaving-radiance', tag, tol=1e-5)
            ctx.state('gonio-leave', case, u)
        if case['i'] in P2 or f.img is None:
            ctx.close([x / top for x in L(l.power(None))], [a * b * 4 * math.pi / top for a, b in zip(I, f.mean())], 'power', 'goniometric image %d' % case['i'], tol=1e-6)
    ctx.trace()
    ctx.sample(case)


class Env(object):
    def __init__(self, f, pl, missing=False):
        self.t, self.ti, self.m, self.mi = sh.place(pl)
        self.f = f
        self.l = quiet(InfiniteAreaLight, self.t, sp(I), 1, f.fn if f.img is not None or missing else None)

    def uv(self, d):
        q = unit(m_v(self.mi, d))
        return (math.atan2(q[1], q[0]) % (2 * math.pi)) / (2 * math.pi), math.acos(max(-1., min(1., q[2]))) / math.pi

    def le(self, u, v):
        return self.f.at(u, v) if self.f.ref else list(I)

    def dir(self, u, v):
        th, ph = v * math.pi, u * 2 * math.pi
        return m_v(self.m, (math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)))

    def top(self):
        return self.f.top() if self.f.ref else 1.


def ray(d, o=(0., 0., 5.)):
    return geo.RayDifferential(Pt(o), V(d), 0., INF)


def run_env(case, ctx):
    n = case['n']
    with File(case['i']) as f:
        for missing in ((0, 1) if f.img is None else (0,)):
            e = Env(f, case['pl'], bool(missing))
            top = e.top()
            ctx.check(not e.l.is_delta_light(), 'delta', 'environment')
            # directions of the sphere
            for a, b in itertools.product(range(2 * n), range(n)):
                u, v = (a + .37) / (2 * n), (b + .41) / n
                d = e.dir(u, v)
                want = e.le(u, v)
                tag = 'environment %s image %d direction %r' % (case['pl'], case['i'], (u, v))
                ctx.close([x / top for x in L(e.l.le(ray(d)))], [x / top for x in want], 'escaped', tag, tol=1e-6)
                ctx.close([x / top for x in L(e.l.le(ray(mul(d, 7.))))], [x / top for x in want], 'escaped', tag + ' (long)', tol=1e-6)
                pdf = float(e.l.pdf(Pt((0., 1., 0.)), V(d)))
                ctx.check(pdf >= 0 and (pdf > 0 or max(want) <= 1e-9 * top), 'undrawn', '%s: radiance %r, density %r' % (tag, want, pdf))
                ctx.state('env', case['pl'], case['i'], a, b)
                ctx.step()
            # samples
            for a, b in itertools.product(range(n), range(n)):
                us = ((a + .37) / n, (b + .41) / n, .5)
                p = Pt((.5, -1., 2.))
                s, wi, pdf, vis = e.l.sample_l(p, .01, LightSample(*us), .25)
                tag = 'environment %s image %d u=%r' % (case['pl'], case['i'], us)
                ctx.close(norm(L(wi)), 1., 'sample-unit', tag)
                u, v = e.uv(L(wi))
                ctx.close([x / top for x in L(s)], [x / top for x in e.le(u, v)], 'sample-radiance', tag, tol=1e-5)
                pdf = float(pdf)
                g = max(f.w, f.h)
                near = min(abs(u * f.w - round(u * f.w)), abs(v * f.h - round(v * f.h))) < 1e-6
                if near:
                    ctx.skip()
                else:
                    ctx.close(float(e.l.pdf(p, wi)) / max(pdf, 1e-9), 1., 'sample-density', tag, tol=1e-5)
                r = vis.ray
                ctx.close(L(r.o) + L(r.d), [.5, -1., 2.] + L(wi), 'sample-ray', tag)
                ctx.check(float(r.mint) == .01 and float(r.maxt) == INF and float(r.time) == .25, 'sample-ray', tag)
                ctx.state('env-s', case['pl'], case['i'], a, b)
                ctx.step()
    ctx.trace()
    ctx.sample(case)


def run_whole(case, ctx):
    """complete sample grid against the integral over the sphere"""
    n = case['n']
    with File(case['i']) as f:
        e = Env(f, 'spin')
        tot, dens = [0.] * 3, 0.
        k = 160
        for a, b in itertools.product(range(k), range(k)):
            u, v = (a + .5) / k, (b + .5) / k
            w = 2 * math.pi ** 2 * math.sin(math.pi * v) / k / k
            tot = add(tot, mul(e.le(u, v), w))
        k = 64
        for a, b in itertools.product(range(k), range(k)):
            u, v = (a + .5) / k, (b + .5) / k
            dens += float(e.l.pdf(Pt((0., 0., 0.)), V(e.dir(u, v)))) * 2 * math.pi ** 2 * math.sin(math.pi * v) / k / k
        ctx.close(dens, 1., 'density-normalised', 'image %d' % case['i'], tol=.06 if case['i'] in (6, 7) else .01)
        est = [0.] * 3
        for a, b in itertools.product(range(n), range(n)):
            s, wi, pdf, _ = e.l.sample_l(Pt((0., 0., 0.)), 0., LightSample((a + .5) / n, (b + .5) / n, .5), 0.)
            if float(pdf) > 0:
                est = add(est, mul(L(s), 1. / float(pdf) / n / n))
            ctx.state('whole', case['i'], a, b)
        sz = max(tot)
        ctx.close([x / sz for x in est], [x / sz for x in tot], 'estimate', 'image %d: %r for %r' % (case['i'], est, tot), tol=.02)
    ctx.trace()
    ctx.sample(case)


def run_enter(case, ctx):
    from pytracer.shape import Sphere
    from pytracer.transform import Transform
    tr = Transform.translate(V((.5, 0., 1.)))
    scene = Scene(SimpleAggregate([GeometricPrimitive(Sphere(tr, tr.inverse(), False, 1.5, -1.5, 1.5, 360.), None)], True), [], None)
    ctr, rad = scene.world_bound().bounding_sphere()
    ctr, rad = L(ctr), float(rad)
    with File(case['i']) as f:
        e = Env(f, 'spin')
        top = e.top()
        mean = f.mean() if f.ref else list(I)
        if case['i'] in P2 or f.img is None:
            ctx.close([x / top for x in L(e.l.power(scene))], [math.pi * rad * rad * x / top for x in mean], 'power', 'environment image %d' % case['i'], tol=1e-6)
        n = 6
        for a, b in itertools.product(range(n), range(n)):
            ls = LightSample((a + .37) / n, (b + .41) / n, .5)
            _, wi, pd, _ = e.l.sample_l(Pt((0., 0., 0.)), 0., ls, 0.)
            offs, mean_o = set(), [0.] * 3
            for c, d in itertools.product(range(4), range(4)):
                r, nn, pdf, s = e.l.sample_r(scene, ls, (c + .5) / 4, (d + .5) / 4, .3)
                tag = 'environment image %d u=%r' % (case['i'], (a, b, c, d))
                ctx.close(L(r.d), mul(L(wi), -1.), 'enter-direction', tag)
                ctx.close(L(nn), L(r.d), 'enter-normal', tag)
                o = sub(L(r.o), ctr)
                along = dot(o, L(wi))
                side = sub(o, mul(L(wi), along))
                ctx.close(along, rad, 'enter-distance', tag, tol=1e-6)
                ctx.check(norm(side) <= rad * (1 + 1e-9), 'enter-disk', '%s: %r' % (tag, norm(side)))
                ctx.close(float(pdf) / max(float(pd), 1e-9), 1. / (math.pi * rad * rad), 'enter-density', tag, tol=1e-6)
                u, v = e.uv(L(wi))
                ctx.close([x / top for x in L(s)], [x / top for x in e.le(u, v)], 'enter-radiance', tag, tol=1e-5)
                ctx.check(float(r.time) == .3 and float(r.mint) == 0. and float(r.maxt) == INF, 'enter-time', tag)
                offs.add(tuple(round(x, 6) for x in side))
                mean_o = add(mean_o, mul(side, 1 / 16.))
                ctx.state('enter', case['i'], a, b, c, d)
                ctx.step()
            # the origins fill the disk evenly
            ctx.check(len(offs) == 16 and norm(mean_o) < .05 * rad, 'enter-spread', 'image %d u=%r: %d origins, mean %r' % (case['i'], (a, b), len(offs), mean_o))
    ctx.trace()
    ctx.sample(case)


def RUN(case, ctx):
    return globals()['run_' + case['k']](case, ctx)
