"""C01: camera rays against an independent projection model."""
from mc.pt import *
from mc import shapes as sh
from pytracer.camera import PinholeCamera, OrthoCamera, PerspectiveCamera, EnvironmentCamera
from pytracer.transform import AnimatedTransform
from pytracer.film import ImageFilm
from pytracer.filter import BoxFilter
from pytracer.sampler import CameraSample

RULE = ('every camera kind x placement (still and moving) x image size x screen window x field of view x lens radius x focal distance x shutter, every image position of a grid (corners, edges, '
        'interior, outside) x lens position (centre, corners, edges, interior) x sample time; states are (configuration, sample)')
ASSUME = ['animated placements move as G03 says; the concentric lens mapping is only required to have radius max(|2u-1|, |2v-1|) times the lens radius']

KINDS = ('ortho', 'persp', 'env', 'pin')
PLACES = [('id', 'id'), ('move', 'move'), ('spin', 'spin'), ('move', 'spin')]
FILMS = [(4, 4), (6, 3), (2, 5)]
WINDOWS = [(-1., 1., -1., 1.), (-2., 2., -1., 1.), (-.5, 1.5, -.25, 2.)]
FOVS = (30., 60., 90., 120.)
SHUTTERS = [(0., 1.), (.25, .5), (2., 2.), (-1., 1.)]
LENSES = [(0., 1.), (.1, 2.), (1.5, .5), (.3, 50.)]
POS = (0., .3, .5, 1., 1.2)
LENSUV = [(.5, .5), (0., 0.), (1., .25), (.2, .9), (.25, .25), (.5, 0.), (.9, .6)]


def CASES(tier):
    cs = []
    for k in KINDS:
        for pi in range(len(PLACES)):
            if k == 'pin' and pi == 3:
                continue
            for fi in range(len(FILMS)):
                if k in ('env', 'pin'):
                    cs.append(dict(k=k, place=pi, film=fi, win=0, fov=0, lens=0))
                    continue
                for wi in range(len(WINDOWS)):
                    for fv in range(len(FOVS) if k == 'persp' else 1):
                        for li in range(len(LENSES)):
                            if tier == 'quick' and (pi + fi + 2 * wi + fv + li) % 4:
                                continue
                            cs.append(dict(k=k, place=pi, film=fi, win=wi, fov=fv, lens=li, thin=4 if tier == 'quick' else 1))
    return cs


def camera(case, shutter, at, film):
    so, sc = shutter
    w = list(WINDOWS[case['win']])
    lr, fd = LENSES[case['lens']]
    k = case['k']
    if k == 'ortho':
        return OrthoCamera(at, w, so, sc, lr, fd, film)
    if k == 'persp':
        return PerspectiveCamera(at, w, so, sc, lr, fd, FOVS[case['fov']], film)
    if k == 'env':
        return EnvironmentCamera(at, so, sc, film)
    return PinholeCamera(at, 1.5, film)


def model(case, x, y):
    """camera-space (origin, direction) through the centre of the lens"""
    xr, yr = FILMS[case['film']]
    k = case['k']
    if k == 'env':
        th, ph = math.pi * y / yr, 2 * math.pi * x / xr
        return [0., 0., 0.], [math.sin(th) * math.cos(ph), math.cos(th), math.sin(th) * math.sin(ph)]
    if k == 'pin':
        return [x, y, 0.], [-x, -y, 1.5]
    w = WINDOWS[case['win']]
    sx = w[0] + x / xr * (w[1] - w[0])
    sy = w[3] - y / yr * (w[3] - w[2])
    if k == 'ortho':
        return [sx, sy, 0.], [0., 0., 1.]
    t = math.tan(math.radians(FOVS[case['fov']]) / 2)
    return [0., 0., 0.], unit([sx * t, sy * t, 1.])


def RUN(case, ctx):
    a, b = (sh.place(n)[0] for n in PLACES[case['place']])
    at = AnimatedTransform(a, 0., b, 1.)
    xr, yr = FILMS[case['film']]
    film = ImageFilm(xr, yr, BoxFilter(.5, .5), [0., 1., 0., 1.], 'none.png')
    lr, fd = LENSES[case['lens']]
    lensed = case['k'] in ('ortho', 'persp') and lr > 0
    pts = [(fx * xr, fy * yr) for fx in POS for fy in POS]
    lens = LENSUV if lensed else LENSUV[:2]
    for si, shutter in enumerate(SHUTTERS if case['k'] != 'pin' else SHUTTERS[:1]):
        cam = camera(case, shutter, at, film)
        times = sorted(set([shutter[0], .75 * shutter[0] + .25 * shutter[1], shutter[1]])) if case['k'] != 'pin' else [0.]
        for ti, time in enumerate(times):
            m = [[float(v) for v in row] for row in at.interpolate(time).m]
            im = minv(m)
            foci = {}
            for pi, (x, y) in enumerate(pts):
                if (pi + si + ti) % 2:
                    continue
                o, d = model(case, x, y)
                for li, (lu, lv) in enumerate(lens):
                    if (pi // 2 + li) % case.get('thin', 1):
                        continue
                    tag = '%r shutter %r time %r at (%r, %r) lens (%r, %r)' % (case, shutter, time, x, y, lu, lv)
                    s = CameraSample(x, y, lu, lv, time)
                    wt, r = cam.generate_ray(s)
                    ctx.check((s.imageX, s.imageY, s.lens_u, s.lens_v, s.time) == (x, y, lu, lv, time), 'sample-changed', tag)
                    ctx.check(wt == 1., 'weight', '%s: %r' % (tag, wt))
                    ctx.check(r.mint == 0. and r.maxt == INF, 'interval', '%s: %r %r' % (tag, r.mint, r.maxt))
                    ctx.check(int(r.depth) == r.depth == 0, 'depth', '%s: %r' % (tag, r.depth))
                    ctx.check(abs(float(r.time) - time) < 1e-12, 'time', '%s: ray time %r' % (tag, r.time))
                    if case['k'] != 'pin':
                        ctx.check(abs(norm(L(r.d)) - 1.) < 1e-7, 'unit-direction', '%s: %r' % (tag, L(r.d)))
                    ro, rd = m_pt(im, L(r.o)), m_vec(im, L(r.d))      # back in camera space
                    if not lensed:
                        ctx.close(ro, o, 'origin', tag, tol=1e-7)
                        ctx.close(unit(rd), unit(d), 'direction', tag, tol=1e-6)
                    else:
                        rad = lr * max(abs(2 * lu - 1), abs(2 * lv - 1))
                        ctx.close([ro[2], norm(ro)], [0., rad], 'lens-disk', tag, tol=1e-6)
                        # on the ray: the point the pinhole ray has at the focal plane
                        f = add(o, mul(d, fd / d[2]))
                        t = (f[2] - ro[2]) / rd[2]
                        ctx.check(t > 0, 'focus-behind', tag)
                        ctx.close(add(ro, mul(rd, t)), f, 'focus', tag, tol=1e-5)
                        foci.setdefault((x, y), []).append((lu, lv, [round(v, 9) for v in ro]))
                    wd, q = cam.generate_ray_differential(s)
                    ctx.check((s.imageX, s.imageY, s.lens_u, s.lens_v, s.time) == (x, y, lu, lv, time), 'sample-changed', tag)
                    ctx.check(wd == 1., 'weight', '%s: differential %r' % (tag, wd))
                    ctx.check(bool(q.has_differentials), 'no-differential', tag)
                    ctx.close(L(q.o) + L(q.d) + [float(q.time), float(q.mint)], L(r.o) + L(r.d) + [float(r.time), float(r.mint)], 'differential-main', tag, tol=1e-9)
                    ctx.check(q.maxt == INF and q.depth == 0, 'interval', tag)
                    for dx, dy, qo, qd, n in ((1., 0., q.rxOrigin, q.rxDirection, 'x'), (0., 1., q.ryOrigin, q.ryDirection, 'y')):
                        nb = cam.generate_ray(CameraSample(x + dx, y + dy, lu, lv, time))[1]
                        ctx.close(L(qo), L(nb.o), 'differential-%s-origin' % n, tag, tol=1e-6)
                        ctx.close(L(qd), L(nb.d), 'differential-%s-direction' % n, tag, tol=1e-5)
                    ctx.state(case, si, ti, pi, lu, lv)
            # one lens position for all image positions; different lens positions are told apart
            if foci:
                spots = {tuple(z[2]) for v in foci.values() for z in v}
                ctx.check(len(spots) == len(lens), 'lens-spots', '%r: %d lens points from %d samples' % (case, len(spots), len(lens)))
    ctx.trace()
    ctx.outcome(case['k'])
    ctx.sample(case)
