"""L01: lights by distance, cone, side and visibility."""
import contextlib
import io
import itertools
from mc.pt import *
from mc import shapes as sh
from mc import scenes as sc
from pytracer import Spectrum
from pytracer.light import PointLight, SpotLight, DistantLight, DiffuseAreaLight
from pytracer.light.utility import VisibilityTester, ShapeSet, LightSample, LightSampleOffset
from pytracer.aggregate import GeometricPrimitive, SimpleAggregate, Intersection
from pytracer.scene import Scene
from pytracer.shape import Sphere, Disk, Cylinder
from pytracer.transform import Transform

RULE = ('every light kind x placements (rigid, mirrored) x cone angles x every receiver of a lattice x random-number grid (corners and cells) x offsets and times; '
        'every set of up to two blockers from before/between/touching/behind slots x light kinds, both queries; whole-light estimates by exact grids against closed-form irradiance; '
        'states are (light, receiver, random numbers) and (light, blockers)')
ASSUME = ['receivers exactly at a light or within 1e-9 of a cone edge or emitter plane are left out', 'lights carry rigid or mirrored placements (scales are documented as unsupported)',
          'solid-angle densities of single shapes are decided by S04; here sets of shapes and the emitting side']
I = (3., .5, 2.)
PL = ('id', 'move', 'spin', 'mirror')
CONES = [(30., 20.), (60., 10.), (45., 45.), (90., 0.), (120., 60.), (5., 1.)]
REC = [p for p in itertools.product((-1.5, .25, 2.), (-1., .5, 3.), (-2., 0., 1.25))]
US = [(0., 0., 0.), (.25, .75, .5), (.5, .5, .999), (.9, .1, .3), (.999999, .999999, .7), (.1, .6, .05), (.7, .3, .9)]


def sp(c):
    return Spectrum.from_rgb(list(c))


def CASES(tier):
    cs = []
    for pl in PL:
        cs.append(dict(k='point', pl=pl))
        for c in range(len(CONES)):
            cs.append(dict(k='spot', pl=pl, cone=c))
        cs.append(dict(k='distant', pl=pl))
    for a in range(len(AREA)):
        cs.append(dict(k='area', a=a))
        cs.append(dict(k='emit', a=a, n=10 if tier == 'quick' else 24))
    for a in range(len(IRR)):
        cs.append(dict(k='irr', a=a, n=12 if tier == 'quick' else 40))
    for l in ('point', 'spot', 'distant', 'area'):
        for i in range(len(SLOTS)):
            cs.append(dict(k='block', l=l, i=i))
    cs.append(dict(k='seg'))
    cs.append(dict(k='sample'))
    return cs


def segment_ok(ctx, vis, p, eps, q, tm, tag, far=1e-4):
    r = vis.ray
    d = norm(sub(q, p))
    ctx.close(L(r.o), p, 'segment-start', tag)
    ctx.close(L(r.d), unit(sub(q, p)), 'segment-direction', tag)
    ctx.close(float(r.mint), eps, 'segment-near', tag)
    ctx.check((1 - far) * d <= float(r.maxt) <= d * (1 + 1e-9), 'segment-far', '%s: ends at %r of %r' % (tag, float(r.maxt), d))
    ctx.check(float(r.time) == tm, 'segment-time', '%s: %r' % (tag, r.time))
    ctx.check(int(r.depth) == 0, 'segment-depth', tag)


def delta(ctx, l, tag):
    ctx.check(l.is_delta_light() is True or l.is_delta_light() == True, 'delta', tag)
    ctx.check(float(l.pdf(Pt((1., 2., 3.)), V((0., 0., 1.)))) == 0., 'delta-density', tag)
    ctx.close(L(l.le(geo.RayDifferential(Pt((0, 0, 5)), V((0, 0, 1))))), [0.] * 3, 'escaped', tag)


def run_point(case, ctx):
    t, ti, m, mi = sh.place(case['pl'])
    l = PointLight(t, sp(I))
    pos = m_pt(m, (0., 0., 0.))
    delta(ctx, l, 'point')
    ctx.close(L(l.power(None)), [4 * math.pi * x for x in I], 'power', 'point')
    for p in REC:
        if norm(sub(p, pos)) < 1e-6:
            continue
        for eps, tm in ((1e-3, 0.), (.05, .6)):
            tag = 'point %s at %r eps=%r t=%r' % (case['pl'], p, eps, tm)
            q = Pt(p)
            s, wi, pdf, vis = l.sample_l(q, eps, LightSample(.3, .4, .5), tm)
            d = sub(pos, p)
            ctx.close(L(s), [x / dot(d, d) for x in I], 'inverse-square', tag)
            ctx.close(L(wi), unit(d), 'direction', tag)
            ctx.check(float(pdf) == 1., 'density', tag)
            segment_ok(ctx, vis, list(p), eps, pos, tm, tag)
            ctx.check(L(q) == list(p), 'receiver-changed', tag)
            ctx.state('point', case['pl'], p, eps)
    for u in US:
        r, n, pdf, s = l.sample_r(None, LightSample(*u), .2, .8, .7)
        ctx.close(L(r.o), pos, 'leaving-from', repr(u))
        ctx.close(norm(L(r.d)), 1., 'leaving-unit', repr(u))
        ctx.close(L(n), L(r.d), 'leaving-normal', repr(u))
        ctx.close(float(pdf), 1 / (4 * math.pi), 'leaving-density', repr(u))
        ctx.close(L(s), I, 'leaving-intensity', repr(u))
        ctx.check(float(r.time) == .7, 'leaving-time', repr(u))
    ctx.outcome('point')
    ctx.trace()
    ctx.sample(case)


def falloff(ct, width, fall):
    cw, cf = math.cos(math.radians(width)), math.cos(math.radians(fall))
    if min(abs(ct - cw), abs(ct - cf)) < 1e-9:
        return None
    if ct < cw:
        return 0.
    if ct > cf:
        return 1.
    return ((ct - cw) / (cf - cw)) ** 4


def run_spot(case, ctx):
    t, ti, m, mi = sh.place(case['pl'])
    width, fall = CONES[case['cone']]
    l = SpotLight(t, sp(I), width, fall)
    pos = m_pt(m, (0., 0., 0.))
    delta(ctx, l, 'spot')
    ax = unit(m_vec(m, (0., 0., 1.)))
    b = unit(m_vec(m, (1., .3, 0.)))
    cw, cf = math.cos(math.radians(width)), math.cos(math.radians(fall))
    ctx.close(L(l.power(None)), [x * 2 * math.pi * (1 - .5 * (cw + cf)) for x in I], 'power', 'spot %r' % (CONES[case['cone']],))
    rec = list(REC) + [add(pos, mul(add(mul(ax, math.cos(a)), mul(b, math.sin(a))), r)) for r in (.5, 3.) for a in [math.radians(x) for x in (0., .5, 3., 12., 25., 35., 50., 70., 89., 100., 130., 180.)]]
    for p in rec:
        d = sub(pos, p)
        if norm(d) < 1e-6:
            continue
        f = falloff(-dot(unit(d), ax), width, fall)
        if f is None:
            ctx.skip()
            continue
        tag = 'spot %s %r at %r' % (case['pl'], CONES[case['cone']], p)
        s, wi, pdf, vis = l.sample_l(Pt(p), .01, LightSample(.3, .4, .5), .25)
        ctx.close(L(s), [x * f / dot(d, d) for x in I], 'cone', tag)
        ctx.close(L(wi), unit(d), 'direction', tag)
        ctx.check(float(pdf) == 1., 'density', tag)
        segment_ok(ctx, vis, list(p), .01, pos, .25, tag)
        ctx.state('spot', case['pl'], case['cone'], tuple(p))
        ctx.outcome('spot/%s' % ('dark' if f == 0 else 'full' if f == 1 else 'edge'))
    for u in US:
        r, n, pdf, s = l.sample_r(None, LightSample(*u), .2, .8, .7)
        tag = 'spot %s %r leaving %r' % (case['pl'], CONES[case['cone']], u)
        ctx.close(L(r.o), pos, 'leaving-from', tag)
        ct = dot(L(r.d), ax)
        ctx.check(ct >= cw - 1e-9 and abs(norm(L(r.d)) - 1) < 1e-9, 'leaving-cone', '%s: %r' % (tag, ct))
        ctx.close(float(pdf), 1 / (2 * math.pi * (1 - cw)), 'leaving-density', tag)
        f = falloff(ct, width, fall)
        if f is not None:
            ctx.close(L(s), mul(I, f), 'leaving-intensity', tag, tol=1e-5)
        ctx.close(L(n), L(r.d), 'leaving-normal', tag)
        ctx.check(float(r.time) == .7, 'leaving-time', tag)
    ctx.trace()
    ctx.sample(case)


class Bound(object):
    def __init__(self, lo, hi):
        self.b = BBox(Pt(lo), Pt(hi))
        self.ctr, self.rad = mul(add(lo, hi), .5), norm(sub(hi, lo)) / 2

    def world_bound(self):
        return self.b


def run_distant(case, ctx):
    t, ti, m, mi = sh.place(case['pl'])
    scn = Bound((-1., -2., .5), (3., 1., 2.))
    for di in ((0., 0., 1.), (0., -2., 0.), (1., 1., 1.), (-3., .5, .2), (0., 0., -1.)):
        l = DistantLight(t, sp(I), V(di))
        w = unit(m_vec(m, di))
        delta(ctx, l, 'distant')
        ctx.close(L(l.power(scn)), [x * math.pi * scn.rad ** 2 for x in I], 'power', 'distant')
        for p in REC[::2]:
            for eps, tm in ((1e-3, 0.), (.05, .6)):
                tag = 'distant %s %r at %r' % (case['pl'], di, p)
                s, wi, pdf, vis = l.sample_l(Pt(p), eps, LightSample(.3, .4, .5), tm)
                ctx.close(L(s), I, 'constant', tag)
                ctx.close(L(wi), w, 'direction', tag)
                ctx.check(float(pdf) == 1., 'density', tag)
                r = vis.ray
                ctx.close(L(r.o) + L(r.d), list(p) + w, 'segment', tag)
                ctx.check(float(r.mint) == eps and float(r.maxt) == INF and float(r.time) == tm, 'segment-extent', tag)
                wi *= 5.
                s *= 0.
                ctx.close(L(l.sample_l(Pt(p), eps, LightSample(), tm)[1]), w, 'light-changed', tag)
                ctx.close(L(l.sample_l(Pt(p), eps, LightSample(), tm)[0]), I, 'light-changed', tag)
                ctx.state('distant', case['pl'], di, p, eps)
        seen = []
        for u in US + [(i / 6. + .05, j / 6. + .05, 0.) for i in range(6) for j in range(6)]:
            r, n, pdf, s = l.sample_r(scn, LightSample(*u), .2, .8, .7)
            tag = 'distant %r leaving %r' % (di, u)
            o = sub(L(r.o), scn.ctr)
            ctx.close(L(r.d), mul(w, -1.), 'leaving-direction', tag)
            ctx.close(dot(o, w), scn.rad, 'leaving-from', tag)
            off = norm(sub(o, mul(w, dot(o, w))))
            ctx.check(off <= scn.rad * (1 + 1e-9), 'leaving-disk', tag)
            seen.append(off / scn.rad)
            ctx.close(float(pdf), 1 / (math.pi * scn.rad ** 2), 'leaving-density', tag)
            ctx.close(L(s), I, 'leaving-radiance', tag)
            ctx.check(float(r.time) == .7 and float(r.maxt) == INF, 'leaving-time', tag)
            ctx.close(L(n), L(r.d), 'leaving-normal', tag)
        ctx.check(max(seen) > .9 and min(seen) < .35 and abs(sum(x * x for x in seen[len(US):]) / 36. - .5) < .03, 'leaving-spread', repr(di))
    ctx.outcome('distant')
    ctx.trace()
    ctx.sample(case)


def quadm(c=(0., 0., 0.), s=1., ro=False, place='id'):
    t = Transform.translate(V(c)) * sh.place(place)[0]
    from pytracer.shape import create_triangle_mesh
    return create_triangle_mesh(t, t.inverse(), ro, {'indices': [0, 1, 2, 0, 2, 3], 'P': [-s, -s, 0., s, -s, 0., s, s, 0., -s, s, 0.]})


def trap(ro=False):
    """two triangles of different area in one plane"""
    t = Transform.translate(V((0., .2, -.3)))
    from pytracer.shape import create_triangle_mesh
    return create_triangle_mesh(t, t.inverse(), ro, {'indices': [0, 1, 2, 0, 2, 3], 'P': [-1., -1., 0., 2., -1., 0., 2., 1.5, 0., -.5, 0., 0.]})


def quad_(kind, pl, ro, *p):
    t, ti, m, mi = sh.place(pl)
    return kind(t, ti, ro, *p)


# name, shape, area (None: do not compare), plane (point, emitting normal) or centre and radius of a ball, flat
def area_(name):
    k, pl, ro = AREA[name]
    t, ti, m, mi = sh.place(pl)
    det = det3([r[:3] for r in m])
    if k == 'disk':
        s, a = Disk(t, ti, ro, .5, 1.2, 0., 360.), math.pi * 1.44
        n, c = (0., 0., 1.), (0., 0., .5)
    elif k == 'ring':
        s, a = Disk(t, ti, ro, 0., 1.2, .6, 180.), math.pi * (1.44 - .36) / 2
        n, c = (0., 0., 1.), (0., 0., 0.)
    elif k == 'quad':
        s, a = quadm((0., 0., 0.), 1., ro, pl), 4.
        n, c = (0., 0., 1.), (0., 0., 0.)
    elif k == 'trap':
        s, a = trap(ro), None
        a = .5 * norm(cross((3., 0., 0.), (3., 2.5, 0.))) + .5 * norm(cross((3., 2.5, 0.), (.5, 1., 0.)))
        t, ti, m, mi = Transform.translate(V((0., .2, -.3))), None, m_translate((0., .2, -.3)), m_translate((0., -.2, .3))
        n, c = (0., 0., 1.), (0., 0., 0.)
    elif k == 'ball':
        s, a = Sphere(t, ti, ro, .7, -.7, .7, 360.), 4 * math.pi * .49
        n, c = None, (0., 0., 0.)
    else:
        s, a = Cylinder(t, ti, ro, .4, -.5, .8, 360.), 2 * math.pi * .4 * 1.3
        n, c = None, (0., 0., 0.)
    c = m_pt(m, c)
    if n is not None:
        # parametric normal: dpdu x dpdv in world, flipped by handedness and the orientation flag
        n = unit(m_nrm(m, n))
        if ro:
            n = mul(n, -1.)
    return s, a, c, n, ro


AREA = [('disk', 'id', False), ('disk', 'id', True), ('disk', 'spin', False), ('disk', 'mirror', False), ('ring', 'move', False), ('quad', 'id', False), ('quad', 'id', True), ('quad', 'spin', False),
        ('trap', 'id', False), ('trap', 'id', True), ('ball', 'id', False), ('ball', 'move', False), ('ball', 'id', True), ('tube', 'spin', False)]


def run_area(case, ctx):
    s, a, c, n, ro = area_(case['a'])
    name = '%r' % (AREA[case['a']],)
    l = DiffuseAreaLight(sh.place('id')[0], sp(I), 3, s)
    ctx.check(int(l.ns) == 3 and int(DiffuseAreaLight(sh.place('id')[0], sp(I), 0, s).ns) == 1, 'sample-count', name)
    ctx.check(l.is_delta_light() == False, 'delta', name)
    ctx.close(L(l.power(None)), [x * a * math.pi for x in I], 'power', name)
    ctx.close(L(l.le(geo.RayDifferential(Pt((0, 0, 9)), V((0, 0, 1))))), [0.] * 3, 'escaped', name)
    for w in ((0., 0., 1.), (.6, 0., -.8), (1., 0., 0.), (-.3, .4, .86)):
        for nn in ((0., 0., 1.), (0., 0., -1.), (.8, 0., .6)):
            ctx.close(L(l.l(Pt((0, 0, 0)), Nm(nn), V(w))), I if dot(w, nn) > 0 else [0.] * 3, 'emitting-side', '%r %r' % (w, nn))
    prim = GeometricPrimitive(s, None, l)
    agg = SimpleAggregate([prim], True)
    for p in REC:
        for u in US:
            for eps, tm in ((1e-3, .4),):
                tag = '%s at %r u=%r' % (name, p, u)
                q = Pt(p)
                e, wi, pdf, vis = l.sample_l(q, eps, LightSample(*u), tm)
                wi, pdf = L(wi), float(pdf)
                edge = min(u[:2]) < 1e-3 or max(u[:2]) > .999          # on the rim: which side counts is rounding
                if norm(sub(p, c)) < 1e-6 or any(x != x for x in wi):
                    ctx.skip()
                    continue
                r = vis.ray
                d = float(r.maxt)
                target = add(list(p), mul(wi, d / (1 - 1e-5)))
                ctx.close(norm(wi), 1., 'direction', tag)
                segment_ok(ctx, vis, list(p), eps, target, tm, tag)
                if n is not None:
                    h = dot(sub(p, c), n)
                    if abs(h) < 1e-6:
                        ctx.skip()
                        continue
                    ctx.check(abs(dot(sub(target, c), n)) < 1e-5 * (1 + d), 'on-surface', '%s: %r' % (tag, target))
                    ctx.close(L(e), I if h > 0 else [0.] * 3, 'emitted', tag)
                    want = d * d / abs(dot(wi, n)) / a
                    if edge:
                        ctx.skip()
                        continue
                    # points of the hole or the missing sector may be drawn (S04); they are not on the shape
                    if AREA[case['a']][0] != 'ring' or s.intersect_p(geo.Ray(Pt(p), V(wi))):
                        ctx.close(pdf, want, 'density', tag, tol=1e-3)
                        ctx.close(float(l.pdf(Pt(p), V(wi))), want, 'density-afterwards', tag, tol=1e-3)
                    ctx.outcome('area/%s' % ('lit' if h > 0 else 'back'))
                else:
                    ctx.check(pdf > 0 and pdf < INF or pdf == 0., 'density', tag)
                # what a ray that hits the light sees
                ray = geo.RayDifferential(Pt(p), V(wi))
                isect = Intersection()
                with contextlib.redirect_stdout(io.StringIO()):
                    hit = agg.intersect(ray, isect)
                if hit and not edge and abs(float(ray.maxt) - d) < 1e-3 * (1 + d):
                    ctx.close(L(isect.le(V(mul(wi, -1.)))), L(e), 'seen-as-sampled', tag)
                elif n is not None and AREA[case['a']][0] != 'ring':
                    ctx.check(hit or edge, 'on-shape', tag)
                ctx.check(L(q) == list(p), 'receiver-changed', tag)
                ctx.state('area', case['a'], p, u)
    # total emission stays what it was
    ctx.close(L(l.l(Pt((0, 0, 0)), Nm((0, 0, 1)), V((0, 0, 1)))), I, 'light-changed', name)
    ctx.trace()
    ctx.sample(case)


def moments(k):
    """x y z xx yy zz xy xz yz averaged over the shape, in its own frame"""
    if k == 'disk':
        return [0., 0., .5, .36, .36, .25, 0., 0., 0.]
    if k == 'ball':
        return [0., 0., 0.] + [.49 / 3] * 3 + [0.] * 3
    if k == 'tube':
        return [0., 0., .15, .08, .08, 1.69 / 12 + .0225, 0., 0., 0.]
    if k == 'ring':
        return None
    v = [(-1., -1., 0.), (1., -1., 0.), (1., 1., 0.), (-1., 1., 0.)] if k == 'quad' else [(-1., -1., 0.), (2., -1., 0.), (2., 1.5, 0.), (-.5, 0., 0.)]
    m, w = [0.] * 9, 0.
    for t in ((v[0], v[1], v[2]), (v[0], v[2], v[3])):
        a = .5 * norm(cross(sub(t[1], t[0]), sub(t[2], t[0])))
        s = [sum(p[x] for p in t) for x in range(3)]
        e = lambda x, y: (sum(p[x] * p[y] for p in t) + s[x] * s[y]) / 12.
        for z, x in enumerate((s[0] / 3, s[1] / 3, s[2] / 3, e(0, 0), e(1, 1), e(2, 2), e(0, 1), e(0, 2), e(1, 2))):
            m[z] += a * x
        w += a
    return [x / w for x in m]


def run_emit(case, ctx):
    s, a, c, n, ro = area_(case['a'])
    name = '%r' % (AREA[case['a']],)
    l = DiffuseAreaLight(sh.place('id')[0], sp(I), 1, s)
    N = case['n']
    for i in range(N):
        for j in range(N):
            u = ((i + .5) / N, (j + .5) / N, (i * N + j + .5) / (N * N))
            r, nn, pdf, e = l.sample_r(None, LightSample(*u), (j + .37) / N, (i + .71) / N, .7)
            tag = '%s leaving %r' % (name, u)
            d, nn = L(r.d), L(nn)
            ctx.check(abs(norm(d) - 1) < 1e-6 and dot(d, nn) >= 0, 'leaving-side', '%s: %r from %r' % (tag, d, nn))
            ctx.close(float(pdf), 1 / (a * 2 * math.pi), 'leaving-density', tag)
            ctx.check(float(r.time) == .7 and float(r.maxt) == INF and 0 < float(r.mint) < 1e-2, 'leaving-interval', tag)
            if n is not None:
                ctx.close(nn, n, 'leaving-normal', tag)
                ctx.check(abs(dot(sub(L(r.o), c), n)) < 1e-6, 'leaving-from', tag)
            if dot(d, nn) > 1e-9:
                ctx.close(L(e), I, 'leaving-radiance', tag)
            ctx.state('emit', case['a'], i, j)
    # the starting points cover the shape evenly, the directions the half space, independently of each other
    k, pl, _ = AREA[case['a']]
    mi = m_translate((0., -.2, .3)) if k == 'trap' else sh.place(pl)[3]
    want = moments(k)
    if want is not None:
        K, D, M = 6, 4, 16 if k in ('quad', 'trap') else 1
        got, cs, num = [0.] * 9, [0., 0.], 0
        for i in range(K):
            for j in range(K):
                for q in range(M):
                    for h in range(D * D):
                        v1, v2 = (h // D + .5) / D, (h % D + .5) / D
                        r, nn, pdf, e = l.sample_r(None, LightSample((i + .5) / K, (j + .5) / K, (q + .5) / M), v1, v2, 0.)
                        o, cc = m_pt(mi, L(r.o)), dot(unit(L(r.d)), unit(L(nn)))
                        for z, x in enumerate((o[0], o[1], o[2], o[0] * o[0], o[1] * o[1], o[2] * o[2], o[0] * o[1], o[0] * o[2], o[1] * o[2])):
                            got[z] += x
                        cs[0] += cc
                        cs[1] += cc * o[0]
                        num += 1
        got = [x / num for x in got]
        ctx.check(all(abs(x - y) < .03 for x, y in zip(got, want)), 'leaving-coverage', '%s: mean and second moments %r want %r' % (name, [round(x, 3) for x in got], [round(x, 3) for x in want]))
        ctx.check(abs(cs[0] / num - .5) < .03, 'leaving-spread', '%s: mean cosine %r' % (name, cs[0] / num))
        ctx.check(abs(cs[1] / num - .5 * want[0]) < .03, 'leaving-spread', '%s: direction follows position, %r' % (name, cs[1] / num))
        ctx.outcome('cover')
    ctx.outcome('emit')
    ctx.trace()
    ctx.sample(case)


# shape, receiver point, receiver normal, irradiance / radiance
def tri_ff(p, n, pts):
    """irradiance at p from a uniform polygon (Lambert), all above the horizon"""
    s = 0.
    for a, b in zip(pts, pts[1:] + pts[:1]):
        u, v = unit(sub(a, p)), unit(sub(b, p))
        x = cross(u, v)
        if norm(x) > 1e-12:
            s += math.acos(max(-1., min(1., dot(u, v)))) * dot(unit(x), n)
    return abs(s) / 2


IRR = [('disk', 0, 2.), ('disk', 0, .6), ('ball', 10, 2.), ('ball', 10, 1.), ('quad', 5, 1.5), ('trap', 8, 1.), ('ball', 11, 3.)]


def run_irr(case, ctx):
    k, ai, h = IRR[case['a']]
    s, a, c, n, ro = area_(ai)
    l = DiffuseAreaLight(sh.place('id')[0], sp((1., 1., 1.)), 1, s)
    p = add(c, (0., 0., h))
    rn = (0., 0., -1.)
    if k == 'disk':
        want = math.pi * 1.44 / (1.44 + h * h)
    elif k == 'ball':
        want = math.pi * (.7 / h) ** 2
    elif k == 'quad':
        want = tri_ff(p, rn, [(-1., -1., 0.), (1., -1., 0.), (1., 1., 0.), (-1., 1., 0.)])
    else:
        o = (0., .2, -.3)
        want = tri_ff(p, rn, [add(o, x) for x in ((-1., -1., 0.), (2., -1., 0.), (2., 1.5, 0.), (-.5, 0., 0.))])
    N = case['n']
    M = 16 if k in ('trap', 'quad') else 1
    tot = 0.
    for i in range(N):
        for j in range(N):
            for q in range(M):
                e, wi, pdf, vis = l.sample_l(Pt(p), 1e-3, LightSample((i + .5) / N, (j + .5) / N, (q + .5) / M), 0.)
                if float(pdf) > 0:
                    tot += float(e[0]) * max(0., dot(L(wi), rn)) / float(pdf)
    tot /= N * N * M
    ctx.check(abs(tot - want) < .04 * want, 'irradiance', '%s at height %r: %r want %r' % (k, h, tot, want))
    ctx.state('irr', case['a'])
    ctx.outcome('irr/' + k)
    ctx.trace()
    ctx.sample(case)


# blockers sit at parameters along the segment from the receiver (0) to the light (1)
SLOTS = [('ball', -.4), ('ball', .3), ('ball', .7), ('ball', 1.4), ('disk', -.2), ('disk', .1), ('disk', .5), ('disk', .97), ('disk', 1.05), ('beside', .5), ('beside', .2), ('disk', .004)]


def blocker(k, at, p, q):
    d = sub(q, p)
    ctr = add(p, mul(d, at))
    w = unit(d)
    if k == 'beside':
        side = unit(cross(w, (.3, 1., .2)))
        return sc.ball(add(ctr, mul(side, .3)), .25), False
    if k == 'ball':
        return sc.ball(ctr, .1), 0 < at < 1
    # a disk facing the segment
    up = (0., 0., 1.)
    ax = cross(up, w)
    t = Transform.translate(V(ctr))
    if norm(ax) > 1e-9:
        t = t * Transform.rotate(math.degrees(math.acos(max(-1., min(1., dot(up, w))))), V(ax))
    return Disk(t, t.inverse(), False, 0., .15, 0., 360.), 0 < at < 1


def run_block(case, ctx):
    p = [.2, -.4, .3]
    for q, tm in (([1.2, 2., 2.5], 0.), ([-2., .5, .1], .5)):
        if case['l'] == 'distant':
            l = DistantLight(Transform(), sp(I), V(sub(q, p)))
        elif case['l'] == 'point':
            l = PointLight(Transform.translate(V(q)), sp(I))
        elif case['l'] == 'spot':
            l = SpotLight(Transform.translate(V(q)), sp(I), 179., 178.)
        else:
            t = Transform.translate(V(q))
            shape = Sphere(t, t.inverse(), False, .01, -.01, .01, 360.)
            l = DiffuseAreaLight(Transform(), sp(I), 1, shape)
        for j in range(-1, len(SLOTS)):
            prims, blocked = [], False
            for s in {case['i'], j} - {-1}:
                k, at = SLOTS[s]
                shape_, b = blocker(k, at, p, q)
                if case['l'] == 'distant' and at > 1:
                    b = k != 'beside'
                prims.append(GeometricPrimitive(shape_, None))
                blocked = blocked or b
            if case['l'] == 'area':
                prims.append(GeometricPrimitive(shape, None, l))    # the emitter itself never blocks
            agg = SimpleAggregate(prims, True)
            scene = Scene(agg, [l], None)
            e, wi, pdf, vis = l.sample_l(Pt(p), 1e-3, LightSample(.3, .4, .5), tm)
            tag = '%s slots %r %r' % (case['l'], SLOTS[case['i']], SLOTS[j] if j >= 0 else None)
            for again in range(2):
                ctx.check(bool(vis.unoccluded(scene)) == (not blocked), 'visibility', '%s: free=%r' % (tag, not blocked))
            ctx.state('block', case['l'], case['i'], j, tm)
            ctx.outcome('block/%s/%s' % (case['l'], blocked))
    ctx.trace()
    ctx.sample(case)


class Rend(object):
    def transmittance(self, scene, ray, sample, rng=None):
        self.got = (scene, ray, sample)
        return Spectrum(.25)


def run_seg(case, ctx):
    vis = VisibilityTester()
    for p in REC[::3]:
        for q in REC[1::2]:
            if p == q:
                continue
            for e1 in (0., 1e-3, .1):
                for e2 in (0., 1e-5, .2):
                    for tm in (0., .75):
                        a, b = Pt(p), Pt(q)
                        vis.set_segment(a, e1, b, e2, tm)
                        tag = 'segment %r %r eps %r %r' % (p, q, e1, e2)
                        segment_ok(ctx, vis, list(p), e1, list(q), tm, tag, e2 + 1e-9)
                        ctx.close(float(vis.ray.maxt), norm(sub(p, q)) * (1 - e2), 'segment-end', tag)
                        ctx.check(L(a) == list(p) and L(b) == list(q), 'ends-changed', tag)
                        ctx.state(p, q, e1, e2, tm)
            r = Rend()
            ctx.close(L(vis.transmittance('scene', r, 'sample')), [.25] * 3, 'transmittance', tag)
            ctx.check(r.got[0] == 'scene' and r.got[2] == 'sample', 'transmittance-arguments', tag)
            x = r.got[1]
            ctx.check(L(x.o) == L(vis.ray.o) and L(x.d) == L(vis.ray.d) and float(x.mint) == float(vis.ray.mint) and float(x.maxt) == float(vis.ray.maxt) and float(x.time) == float(vis.ray.time), 'transmittance-ray', tag)
    for p in REC:
        for w in ((0., 0., 1.), (.6, -.8, 0.)):
            for e in (0., .02):
                vis.set_ray(Pt(p), e, V(w), .3)
                r = vis.ray
                ctx.check(L(r.o) == list(p) and L(r.d) == list(w) and float(r.mint) == e and float(r.maxt) == INF and float(r.time) == .3, 'ray', repr((p, w)))
    ctx.outcome('segment')
    ctx.trace()


def run_sample(case, ctx):
    """light samples read their own numbers out of a sample record"""
    class Rec(object):
        def __init__(self):
            self.n1, self.n2 = [], []

        def add_1d(self, n):
            self.n1.append(n)
            return len(self.n1) - 1

        def add_2d(self, n):
            self.n2.append(n)
            return len(self.n2) - 1
    for ns in itertools.product((1, 2, 3), repeat=3):
        r = Rec()
        offs = [LightSampleOffset(n, r) for n in ns]
        ctx.check(r.n1 == list(ns) and r.n2 == list(ns), 'requested', repr(ns))
        r.oneD = [[10. * i + k for k in range(n)] for i, n in enumerate(ns)]
        r.twoD = [[[100. * i + k, 200. * i + k + .5] for k in range(n)] for i, n in enumerate(ns)]
        for i, o in enumerate(offs):
            ctx.check(int(o.nSamples) == ns[i], 'count', repr(ns))
            for k in range(ns[i]):
                s = LightSample.from_sample(r, o, k)
                ctx.close(L(s.u_pos) + [float(s.u_com)], [100. * i + k, 200. * i + k + .5, 10. * i + k], 'own-numbers', repr((ns, i, k)))
                ctx.state(ns, i, k)
    s = LightSample(.1, .2, .3)
    ctx.close(L(s.u_pos) + [float(s.u_com)], [.1, .2, .3], 'given-numbers', '')
    seq = iter([.1, .2, .3])
    s = LightSample.from_rand(lambda: next(seq))
    ctx.check(sorted(L(s.u_pos) + [float(s.u_com)]) == [.1, .2, .3], 'drawn-numbers', '')
    # sets of shapes: every member is reachable, in proportion to its area
    for ro in (False, True):
        S = ShapeSet(trap(ro))
        a1, a2 = .5 * norm(cross((3., 0., 0.), (3., 2.5, 0.))), .5 * norm(cross((3., 2.5, 0.), (.5, 1., 0.)))
        ctx.close(float(S.sum_area), a1 + a2, 'set-area', '')
        first = 0
        N = 400
        for i in range(N):
            p, n = S.sample(LightSample(.3, .3, (i + .5) / N))
            q = sub(L(p), (0., .2, -.3))
            side = 3. * (q[1] + 1.) - 2.5 * (q[0] + 1.)          # which side of the shared edge
            first += side < 0
            p2, n2 = S.sample_p(Pt((0., 0., 3.)), LightSample(.3, .3, (i + .5) / N))
            ctx.close(L(p2) + L(n2), L(p) + L(n), 'set-sample', '')
        ctx.check(abs(first - N * a1 / (a1 + a2)) <= 1, 'set-proportion', '%d of %d' % (first, N))
        ctx.close(float(S.pdf_p(Pt((0., 0., 0.)))), 1 / (a1 + a2), 'set-density', '')
    # members behind one another as seen from the point: the density is the sum over all of them
    tris = [((-1., -1., 0.), (2., -1., 0.), (0., 2., 0.)), ((-1., -1., 1.), (.1, 2., 1.4), (2., -1.5, .8)), ((0., -1., -2.), (1.5, .1, 1.8), (-.2, 1., .5))]
    t = Transform()
    from pytracer.shape import create_triangle_mesh
    for cnt in (1, 2, 3):
        for order_ in itertools.permutations(range(3), cnt):
            ts = [tris[k] for k in order_]
            S = ShapeSet(create_triangle_mesh(t, t, False, {'indices': list(range(3 * cnt)), 'P': [x for tr in ts for q in tr for x in q]}))
            whole = sum(.5 * norm(cross(sub(b, a), sub(c, a))) for a, b, c in ts)
            ctx.close(float(S.sum_area), whole, 'set-area', repr(order_))
            for p in ((0., .1, 4.), (.3, -.2, -5.), (3., .4, .6)):
                for q in ((.2, .1, .3), (.4, -.3, .9), (-.3, -.5, .05), (.6, .2, .7), (0., 1.2, 1.), (5., 5., 5.)):
                    d = unit(sub(q, p))
                    want, edge = 0., False
                    for a, b, c in ts:
                        n = cross(sub(b, a), sub(c, a))
                        if abs(dot(n, d)) < 1e-9:
                            continue
                        s = dot(n, sub(a, p)) / dot(n, d)
                        h = add(p, mul(d, s))
                        w = [dot(n, cross(sub(y, x), sub(h, x))) for x, y in ((a, b), (b, c), (c, a))]
                        edge = edge or min(abs(x) for x in w) < 1e-6
                        if s > 0 and min(w) > 0:
                            want += s * s / abs(dot(unit(n), d))
                    if edge:
                        ctx.skip()
                        continue
                    ctx.close(float(S.pdf(Pt(p), V(d))), want / whole, 'set-direction-density', '%r from %r towards %r' % (order_, p, q), tol=1e-6)
                    ctx.state('set', order_, p, q)
    ctx.outcome('sample')
    ctx.trace()


def RUN(case, ctx):
    globals()['run_' + case['k']](case, ctx)
