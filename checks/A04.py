"""A04: placed and moving instances answer like the object placed there."""
from mc.pt import *
from mc import shapes as sh
from mc.scenes import *
from pytracer.aggregate import TransformedPrimitive
from pytracer.transform import AnimatedTransform, Transform
from pytracer.material import MatteMaterial

RULE = ('every catalogue shape x instance placement (still: rigid, mirrored, sheared scales; moving: between pairs of placements) x time before, inside and after the motion x every lattice ray, compared '
        'with the same shape built at the composed placement; plus instances of groups inside every kind of aggregate against brute force; states are (shape, placement, time, ray)')
ASSUME = ['shapes themselves are right (S01, S02) and animated placements interpolate as G03 says']
MOVES = [('move', 'id'), ('spin', 'move'), ('mirror', 'mirror'), ('skew', 'skew'), ('mirskew', 'mirskew'), ('mirrot', 'mirrot'), ('id', 'id'), ('id', 'spin')]
SH = ['ball', 'wedge', 'band', 'gutter', 'washer', 'pie', 'tri:std', 'tri:uv', 'pipe']
TIMES = (-.5, 0., .25, .5, 1., 1.5)


def CASES(tier):
    cs = []
    for i, s in enumerate(SH):
        for j, m in enumerate(MOVES):
            for k, p in enumerate(('id', 'mirrot', 'skew')):
                if tier == 'quick' and (i + j + k) % 3:
                    continue
                cs.append(dict(k='one', s=s, mv=list(m), p=p, ro=(i + j) % 2, step=7 if tier == 'quick' else 1))
    for c in ('simple', 'grid', 'lazygrid', 'bvh-sah-4', 'bvh-middle-1'):
        for inner in ('shape', 'mesh', 'bvh', 'grid'):
            cs.append(dict(k='group', c=c, inner=inner, step=13 if tier == 'quick' else 1))
    for i in range(len(SWING)):
        for c in ('simple', 'grid', 'bvh-sah-4'):
            cs.append(dict(k='swing', i=i, c=c, n=16 if tier == 'quick' else 48))
    cs.append(dict(k='meta'))
    return cs


def motion(mv):
    """world-to-instance transform over time 0..1; moving pairs are rigid"""
    a, b = sh.place(mv[0]), sh.place(mv[1])
    return AnimatedTransform(a[1], 0., b[1], 1.)


def RUN(case, ctx):
    globals()['run_' + case['k']](case, ctx)
    ctx.trace()
    ctx.outcome(case['k'])
    ctx.sample(case)


def composed(at, time, p):
    """Transform pair of the shape when placed for good"""
    w2p = at.interpolate(time)
    T, Ti = sh.place(p)[:2]
    o2w = w2p.inverse() * T
    return o2w, o2w.inverse()


def run_one(case, ctx):
    at = motion(case['mv'])
    ref = sh.reference(case['s'])
    T, Ti, m, mi = sh.place(case['p'])
    kw = {}
    n3 = [Nm(unit((.2, .1, 1.))), Nm(unit((-.3, .2, .9))), Nm(unit((.1, -.4, .8)))] if ref.kind == 'tri' else None
    if n3:
        kw['N'] = n3
    shape = ref.make(T, Ti, bool(case['ro']), **kw)
    gp = GeometricPrimitive(shape, Mat('m'))
    inst = TransformedPrimitive(gp, at)
    box = inst.world_bound()
    lo, hi = L(box.pMin), L(box.pMax)
    ctx.check(inst.can_intersect(), 'can-intersect', repr(case))
    for time in TIMES:
        o2w, w2o = composed(at, time, case['p'])
        placed = ref.make(o2w, w2o, bool(case['ro']), **kw)
        wm = [[float(x) for x in row] for row in o2w.m]
        tag0 = '%r at time %r' % (case, time)
        for i, (o, d) in enumerate(sh.rays()):
            if i % case['step']:
                continue
            wo, wd = m_pt(wm, o), m_vec(wm, d)
            for a, z in ((0., INF), (.3, 5.), (1.1, 1.4)):
                tag = '%s ray %d in [%r, %r]' % (tag0, i, a, z)
                hit, t, eps, dg = placed.intersect(Ray(Pt(wo), V(wd), a, z, time=time))
                r = Ray(Pt(wo), V(wd), a, z, time=time)
                isect = Intersection()
                got = bool(inst.intersect(r, isect))
                if got != bool(hit) or hit and abs(float(r.maxt) - float(t)) > 1e-6 * (1 + float(t)):
                    from checks.S01 import decide
                    if decide(ref, o, d, a, z) == 'open':
                        ctx.skip()
                        continue
                ctx.check(got == bool(hit), 'hit', '%s: %r, the placed shape says %r' % (tag, got, hit))
                r2 = Ray(Pt(wo), V(wd), a, z, time=time)
                ctx.check(bool(inst.intersect_p(r2)) == bool(hit), 'occluded', '%s: want %r' % (tag, hit))
                for x in (r, r2):
                    ctx.check(L(x.o) == wo and L(x.d) == wd and x.mint == a and x.time == time, 'ray-moved', tag)
                ctx.check(r2.maxt == z and (got or r.maxt == z), 'ray-limit', tag)
                if not (got and hit):
                    ctx.check(got or isect.primitive is None, 'miss-record', tag)
                    continue
                ctx.close(float(r.maxt), float(t), 'limit', tag)
                g = isect.dg
                pole = norm(L(dg.dpdu)) < .02          # at a pole the coordinates are not defined
                for name in ('p', 'nn') if pole else ('p', 'nn', 'dpdu', 'dpdv', 'dndu', 'dndv'):
                    ctx.close(L(getattr(g, name)), L(getattr(dg, name)), 'geometry-' + name, tag, tol=1e-5)
                if not pole:
                    ctx.close([float(g.u), float(g.v)], [float(dg.u), float(dg.v)], 'geometry-uv', tag, tol=1e-6)
                ctx.check(isect.primitive is gp and isect.primitiveId == inst.primitiveId, 'record', '%s: %r %r' % (tag, isect.primitive, isect.primitiveId))
                for x, y in ((isect.o2w, o2w), (isect.w2o, w2o)):
                    ctx.close([float(v) for row in x.m for v in row], [float(v) for row in y.m for v in row], 'record-transform', tag, tol=1e-6)
                ctx.check(all(l - 1e-9 <= x <= h + 1e-9 for l, x, h in zip(lo, L(g.p), hi)), 'bound', '%s: %r outside %r %r' % (tag, L(g.p), lo, hi))
                if n3:
                    a_, b_ = shape.get_shading_geometry(isect.o2w, g), placed.get_shading_geometry(o2w, dg)
                    for name in ('nn', 'dpdu', 'dpdv', 'dndu', 'dndv'):
                        x, y = L(getattr(a_, name)), L(getattr(b_, name))
                        if name == 'dpdv' and dot(x, y) < 0:     # its sense is free when handedness differs
                            y = mul(y, -1)
                        ctx.close(x, y, 'shading-' + name, tag, tol=1e-5)
                ctx.state(case['s'], case['mv'], case['p'], time, i, a)


GROUPS = [[('id', 'move'), ('spin', 'spin'), ('mirror', 'mirror'), ('skew', 'skew')], [('move', 'move'), ('spin', 'spin'), ('mirror', 'mirror'), ('skew', 'skew')]]


def run_group(case, ctx):
    """instances of one shared group"""
    inner = case['inner']
    if inner == 'shape':
        base = [ball((.2, 0., 0.), .6)]
    elif inner == 'mesh':
        base = [gmesh(1, lambda x, y: .3 * x * (y % 2))]
    else:
        base = [ball((.2, 0., 0.), .3), disk((-.5, .3, .2), .4), gmesh(1, lambda x, y: 0., (0., 0., -.5))]
    prims = [GeometricPrimitive(s, Mat(k)) for k, s in enumerate(base)]
    group = prims[0] if inner in ('shape', 'mesh') else of('grid' if inner == 'grid' else 'bvh-sah-2', prims)
    GROUP = GROUPS[case['c'] == 'lazygrid' and inner == 'mesh']
    insts = [TransformedPrimitive(group, motion(mv)) for mv in GROUP]
    agg = of(case['c'], insts)
    flat = [p for s in base for p in parts(s)]
    tag0 = repr(case)
    for time in (0., .5, 1.):
        xf = [motion(mv).interpolate(time) for mv in GROUP]
        for i, (o, d) in enumerate(rays()):
            if (i + int(2 * time)) % case['step']:
                continue
            best = None
            for w2p in xf:
                for p in flat:
                    q = w2p(Ray(Pt(o), V(d), 0., INF, time=time))
                    h, t, e, dg = p.intersect(q)
                    if h and (best is None or t < best):
                        best = float(t)
            tag = '%s time %r ray %r %r' % (tag0, time, o, d)
            r = Ray(Pt(o), V(d), 0., INF, time=time)
            isect = Intersection()
            got = bool(agg.intersect(r, isect))
            occ = bool(agg.intersect_p(Ray(Pt(o), V(d), 0., INF, time=time)))
            bad = got != (best is not None) or occ != got or got and abs(float(r.maxt) - best) > 1e-6 * (1 + best)
            if bad and edge(flat, xf, o, d, time, best):
                ctx.skip()
                continue
            ctx.check(got == (best is not None), 'group-hit', '%s: %r want %r' % (tag, got, best))
            ctx.check(occ == (best is not None), 'group-occluded', '%s: %r want %r' % (tag, occ, best))
            if got and best is not None:
                ctx.close(float(r.maxt), best, 'group-nearest', tag)
                ctx.close(L(isect.dg.p), add(o, mul(d, best)), 'group-point', tag, tol=3e-5)
            ctx.state(tag)


def edge(flat, xf, o, d, time, best):
    for e in ((1e-7, 3e-8, 2e-8), (-1e-7, 2e-8, -4e-8), (2e-8, 1e-7, -1e-7), (-3e-8, -1e-7, 1e-7)):
        b = None
        for w2p in xf:
            for p in flat:
                h, t, _, dg = p.intersect(w2p(Ray(Pt(add(o, e)), V(d), 0., INF, time=time)))
                if h and (b is None or t < b):
                    b = float(t)
        if (b is None) != (best is None) or b is not None and abs(b - best) > 1e-4 * (1 + best):
            return True
    return False


# turn (degrees, axis), way, place of the ball
SWING = [((170., (0., 0., 1.)), (0., 0., 0.), (2., 0., .5)), ((150., (0., 1., 0.)), (1., 0., 0.), (0., .3, 2.)), ((-120., (1., 1., 1.)), (0., 2., 0.), (1.5, -1., 0.)),
         ((0., (0., 0., 1.)), (3., -2., 1.), (0., 0., 0.)), ((90., (1., 0., 0.)), (0., 0., 0.), (.5, 0., 1.5))]


def run_swing(case, ctx):
    """an object that swings in a wide arc is found at every moment, through the bounds of the motion"""
    (deg, ax), way, c = SWING[case['i']]
    a = Transform.translate(V((.1, 0., 0.)))
    b = Transform.translate(V(way)) * Transform.rotate(deg, V(ax)) if deg else Transform.translate(V(way))
    at = AnimatedTransform(a, 0., b, 1.)
    inst = TransformedPrimitive(GeometricPrimitive(ball(c, .3), Mat('m')), at)
    far = GeometricPrimitive(ball((-6., -5., 4.), .5), Mat('f'))
    agg = of(case['c'], [inst, far])
    box = inst.world_bound()
    for k in range(case['n'] + 1):
        time = k / float(case['n'])
        w = at.interpolate(time).inverse()
        q = L(w(Pt(c)))
        tag = '%r at %r' % (case, time)
        for d in ((1., 0., 0.), (-1., 0., 0.), (0., 1., 0.), (0., -1., 0.), (0., 0., 1.), (0., 0., -1.)):
            p = add(q, mul(d, .3))
            ctx.check(all(l - 2e-3 <= x <= h + 2e-3 for l, x, h in zip(L(box.pMin), p, L(box.pMax))), 'swing-bound', '%s: %r outside %r %r' % (tag, p, L(box.pMin), L(box.pMax)))
            o = add(add(q, mul(d, 4.)), (.01, -.02, .015))
            r = Ray(Pt(o), V(mul(d, -1.)), 0., INF, time=time)
            isect = Intersection()
            got = bool(agg.intersect(r, isect))
            ctx.check(got and bool(agg.intersect_p(Ray(Pt(o), V(mul(d, -1.)), 0., INF, time=time))), 'swing-hit', '%s: ray %r %r misses the ball at %r' % (tag, o, d, q))
            if got:
                ctx.check(abs(norm(sub(L(isect.dg.p), q)) - .3) < 1e-4 and 3.66 < float(r.maxt) < 3.76, 'swing-point', '%s: %r' % (tag, L(isect.dg.p)))
        ctx.state('swing', case['i'], case['c'], k)


def run_meta(case, ctx):
    s = gmesh(2, lambda x, y: 0.)
    gp = GeometricPrimitive(s, Mat('k'))
    inst = TransformedPrimitive(gp, motion(('spin', 'spin')))
    ctx.check(not inst.can_intersect(), 'refinable', 'an instance of a mesh must be refined')
    out = []
    inst.full_refine(out)
    ctx.check(len(out) == 8 and all(isinstance(x, TransformedPrimitive) and x.can_intersect() for x in out), 'refined', '%r' % (out,))
    box = inst.world_bound()
    for x in out:
        b = x.world_bound()
        ctx.check(all(l <= y + 1e-9 for l, y in zip(L(box.pMin), L(b.pMin))) and all(h >= y - 1e-9 for h, y in zip(L(box.pMax), L(b.pMax))), 'refined-bound')
        ctx.state('refined', x.primitiveId)
    ctx.check(isinstance(repr(inst), str), 'repr')
