"""A01: every aggregate answers as testing each object would."""
from mc.pt import *
from mc.scenes import *
from pytracer.scene import Scene

RULE = ('every catalogue scene x listing order x kind of aggregate (plain, grid, lazily refined grid, hierarchies of both strategies and five leaf sizes) x every lattice ray x intervals that '
        'start and end before, between and behind the hits; plus every assignment of up to five balls to four places on a line, on a plane and in space, and every permutation, for the hierarchy builders; chains of trebling objects (trees up to 80 levels) and piles of concentric ones (leaves of up to 254); '
        'states are (scene, order, aggregate, ray, interval)')
ASSUME = ['each shape on its own answers rays correctly (S01); rays whose brute-force answer changes when nudged by 1e-7 are left out unless parallel to an axis, where the box arithmetic is exact']
CHUNK = 1


def CASES(tier):
    cs = []
    for i, s in enumerate(SCENES):
        n = len(objects(s))
        for c in CONFIGS:
            for j, o in enumerate(orders(n)):
                if s == 'zeno' and (j or c in ('list', 'lazygrid')):
                    continue
                if tier == 'quick' and j and (j + len(c)) % 3:
                    continue
                step = (23 if s in ('box', 'mixed', 'hills', 'zeno', 'blob', 'galaxy') else 13) if tier == 'quick' else 1
                cs.append(dict(k='scene', s=s, c=c, o=j, step=step, off=(i + j + len(c)) % step))
    for m in ('sah', 'middle'):
        for leaf in (1, 2, 4):
            for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
                for first in range(4):
                    cs.append(dict(k='line', m=m, leaf=leaf, n=n, first=first))
    for m in ('sah', 'middle', 'grid'):
        for n in (5, 7) if tier == 'quick' else (5, 6, 7, 8):
            for first in range(n):
                cs.append(dict(k='perm', m=m, n=n, first=first))
    for m in ('sah', 'middle'):
        for leaf in (1, 255) if tier == 'quick' else (1, 2, 12, 255):
            cs.append(dict(k='deep', m=m, leaf=leaf, n=(5, 66, 72) if tier == 'quick' else (5, 33, 63, 64, 65, 66, 67, 80)))
            cs.append(dict(k='pile', m=m, leaf=leaf, n=(3, 9, 18, 40)[:4 if leaf > 1 else 2] if tier == 'quick' else (2, 3, 5, 8, 9, 12, 16, 17, 30, 65, 130, 254)))
    for c in ('simple', 'grid', 'lazygrid', 'bvh'):
        cs.append(dict(k='world', c=c))
    return cs


def RUN(case, ctx):
    globals()['run_' + case['k']](case, ctx)
    ctx.outcome('%s/%s' % (case['k'], case.get('c', case.get('m'))))
    ctx.trace()
    ctx.sample(case)


def answer(agg, o, d, mint, maxt):
    r = Ray(Pt(o), V(d), mint, maxt)
    isect = Intersection()
    hit = bool(agg.intersect(r, isect))
    r2 = Ray(Pt(o), V(d), mint, maxt)
    return hit, r, isect, bool(agg.intersect_p(r2)), r2


def nudged(name, o, d, mint, maxt):
    """does the brute-force answer move when the ray does?"""
    base = scan(name, o, d, mint, maxt)
    for e in ((1e-7, 3e-8, 2e-8), (-1e-7, 2e-8, -4e-8), (2e-8, 1e-7, -1e-7), (-3e-8, -1e-7, 1e-7)):
        b = scan(name, add(o, e), d, mint, maxt)
        if bool(b) != bool(base) or base and abs(b[0][0] - base[0][0]) > 1e-4 * (1 + base[0][0]):
            return True
    return False


def judge(ctx, tag, name, agg, o, d, mint, maxt, want):
    got, r, isect, occ, r2 = answer(agg, o, d, mint, maxt)
    where = '%s ray o=%r d=%r [%r, %r]' % (tag, o, d, mint, maxt)
    ok = got == bool(want) and occ == bool(want) and (not want or abs(float(r.maxt) - want[0][0]) <= 1e-9 * (1. + want[0][0]))
    if not ok and not axisish(d) and nudged(name, o, d, mint, maxt):
        ctx.skip()
        return
    ctx.check(got == bool(want), 'hit', '%s: %r, testing each object says %r' % (where, got, want[:2]))
    ctx.check(occ == bool(want), 'occluded', '%s: %r, testing each object says %r' % (where, occ, want[:2]))
    ctx.check(L(r.o) == L(o) and L(r.d) == L(d) and r.mint == mint, 'ray-moved', where)
    ctx.check(r2.maxt == maxt and r2.mint == mint and L(r2.o) == L(o), 'occlusion-changed-ray', where)
    if got and want:
        ctx.close(float(r.maxt), want[0][0], 'nearest', where, tol=1e-9)
        near = [k for t, k in want if t <= want[0][0] + 1e-9 * (1. + want[0][0])]
        ctx.check(isect.primitive is not None and isect.primitive.material.k in near, 'object', '%s: object %r, nearest is %r' % (where, isect.primitive and isect.primitive.material.k, near))
        ctx.close(L(isect.dg.p), add(o, mul(d, want[0][0])), 'point', where, tol=2e-5)
    elif not got:
        ctx.check(r.maxt == maxt, 'miss-changed-ray', where)


_scan = {}


def run_scene(case, ctx):
    name = case['s']
    objs = objects(name)
    agg = build(case['c'], [s for s, _ in objs], orders(len(objs))[case['o']])
    tag = '%s/%s/order %d' % (name, case['c'], case['o'])
    b = agg.world_bound()
    lo, hi = L(b.pMin), L(b.pMax)
    for s, ps in objs:
        for p in ps:
            w = p.world_bound()
            ctx.check(all(x <= y + 1e-9 for x, y in zip(lo, L(w.pMin))) and all(x >= y - 1e-9 for x, y in zip(hi, L(w.pMax))), 'bound', '%s: %r %r leaves out %r %r' % (tag, lo, hi, L(w.pMin), L(w.pMax)))
    ctx.check(agg.can_intersect(), 'can-intersect', tag)
    for i, (o, d) in enumerate(rays()):
        if i % case['step'] != case['off'] % case['step']:
            continue
        if (name, i) not in _scan:
            hits = scan(name, o, d, 0., INF)
            iv = [(0., INF)]
            ts = [t for t, k in hits]
            if ts:
                mids = [ts[0] * .5] + [.5 * (x + y) for x, y in zip(ts, ts[1:]) if y - x > 1e-6] + [ts[-1] + 1.]
                iv += [(0., mids[0]), (0., mids[1]), (mids[0], mids[1]), (mids[1], INF), (mids[0], INF)]
            else:
                iv += [(1., 4.)]
            _scan[name, i] = [(a, z, scan(name, o, d, a, z)) for a, z in iv]
        ivs = _scan[name, i]
        if case['step'] > 1 and len(ivs) > 3:
            # the whole ray and two of the intervals in turn
            ivs = [ivs[0], ivs[1 + (i + case['o']) % (len(ivs) - 1)], ivs[1 + (i + len(tag)) % (len(ivs) - 1)]]
        for a, z, want in ivs:
            judge(ctx, tag, name, agg, o, d, a, z, want)
            ctx.state(tag, i, a, z)


SPOTS = [(0., 0., 0.), (1., 0., 0.), (2., .5, 0.), (1., 2., -1.)]
_balls = {}


def at(i, r=.4):
    if (i, r) not in _balls:
        _balls[i, r] = ball(SPOTS[i] if i < 4 else (i * 1., (i * i) % 5, (3 * i) % 4), r)
    return _balls[i, r]


def row(n):
    """probe rays through every place"""
    out = []
    for c in range(n):
        s = at(c)
        p = m_pt_of(s)
        out += [(add(p, (0., 0., 5.)), (0., 0., -1.)), (add(p, (-7., .1, .05)), (1., 0., 0.))]
    return out


def m_pt_of(s):
    return [float(s.o2w.m[i][3]) for i in range(3)]


def brute(shapes, o, d):
    best = None
    for k, s in enumerate(shapes):
        hit, t, e, dg = s.intersect(Ray(Pt(o), V(d), 0., INF))
        if hit and (best is None or t < best):
            best = float(t)
    return best


def small(ctx, tag, conf, shapes, probes):
    agg = build(conf, shapes)
    for o, d in probes:
        key = (id(shapes), o, d)
        want = brute(shapes, o, d)
        r = Ray(Pt(o), V(d), 0., INF)
        got = bool(agg.intersect(r, Intersection()))
        ctx.check(got == (want is not None), 'hit', '%s ray %r %r: %r, want %r' % (tag, o, d, got, want))
        if got and want is not None:
            ctx.close(float(r.maxt), want, 'nearest', '%s ray %r %r' % (tag, o, d), tol=1e-9)
        ctx.check(bool(agg.intersect_p(Ray(Pt(o), V(d), 0., INF))) == (want is not None), 'occluded', '%s ray %r %r' % (tag, o, d))


def run_line(case, ctx):
    for rest in itertools.product(range(4), repeat=case['n'] - 1):
        w = (case['first'],) + rest
        tag = '%s/%d places %r' % (case['m'], case['leaf'], w)
        small(ctx, tag, 'bvh-%s-%d' % (case['m'], case['leaf']), [at(i) for i in w], row(4)[::2])
        ctx.state(tag)


def run_deep(case, ctx):
    """objects that treble in size and distance: the tree is as deep as there are objects"""
    conf = 'bvh-%s-%d' % (case['m'], case['leaf'])
    for n in case['n']:
        shapes = [ball((3. ** k, 0., 0.), .2 * 3. ** k) for k in range(n)]
        if n % 2:
            shapes = shapes[::-1]
        e = 3. ** n
        probes = [((-5., .05, .03), (1., 0., 0.)), ((2. * e, .01 * e, 0.), (-1., 0., 0.)), ((-5., 60., 0.), (1., 0., 0.)), ((0., 0., 0.), (-1., 0., .1)), ((e / 2., e, 0.), (0., -1., 0.)), ((1., 5., .1), (0., -1., 0.))]
        small(ctx, '%s, %d objects trebling' % (conf, n), conf, shapes, probes)
        ctx.state(conf, n)


def run_pile(case, ctx):
    """objects with one centre cannot be told apart by the builders: all in one leaf"""
    conf = 'bvh-%s-%d' % (case['m'], case['leaf'])
    for n in case['n']:
        for how in (lambda k: k, lambda k: n - 1 - k, lambda k: (k * 7 + 3) % n):
            # (places and sizes without rounding, so that the centres are the same number)
            shapes = [ball((.5, -.25, .375), .125 + .0625 * how(k)) for k in range(n)]
            probes = [((.5 + .01 * i, -.25 + .02 * i, 9. if i % 2 else .375 + .05 * i), (0., .03, -1.)) for i in list(range(min(n, 9))) + [n - 1, n // 2]]
            small(ctx, '%s, %d objects around one point' % (conf, n), conf, shapes, probes)
            ctx.state(conf, n, how(0))


def run_perm(case, ctx):
    n = case['n']
    others = [i for i in range(n) if i != case['first']]
    # all rotations and reversals of the rest, and every exchange of two
    seqs = set()
    for k in range(n - 1):
        seqs.add(tuple(others[k:] + others[:k]))
        seqs.add(tuple((others[k:] + others[:k])[::-1]))
        for j in range(k):
            x = list(others)
            x[j], x[k] = x[k], x[j]
            seqs.add(tuple(x))
    conf = 'grid' if case['m'] == 'grid' else 'bvh-%s-%d' % (case['m'], 2)
    for s in sorted(seqs):
        w = (case['first'],) + s
        tag = '%s order %r' % (conf, w)
        small(ctx, tag, conf, [at(i) for i in w], row(n)[(sum(w[:3]) % 2)::2])
        ctx.state(tag)


def run_world(case, ctx):
    """a scene's bound covers objects and media, and making a scene changes nothing"""
    class Fog(object):
        def __init__(self, lo, hi):
            self.b = BBox(Pt(lo), Pt(hi))

        def world_bound(self):
            return self.b
    name = 'apart'
    objs = [s for s, _ in objects(name)]
    plain = build(case['c'], objs)
    lo, hi = L(plain.world_bound().pMin), L(plain.world_bound().pMax)
    for flo, fhi in [(None, None), ((-9., -8., -7.), (9., 8., 7.)), ((-.1, -.1, -.1), (.1, .1, .1)), ((5., 0., 0.), (6., 40., 1.))]:
        agg = build(case['c'], objs)
        fog = None if flo is None else Fog(flo, fhi)
        sc = Scene(agg, [], fog)
        tag = '%s fog %r' % (case['c'], flo)
        b = sc.world_bound()
        wlo = lo if fog is None else [min(x, y) for x, y in zip(lo, flo)]
        whi = hi if fog is None else [max(x, y) for x, y in zip(hi, fhi)]
        ctx.close(L(b.pMin) + L(b.pMax), wlo + whi, 'scene-bound', tag, tol=1e-9)
        ctx.close(L(agg.world_bound().pMin) + L(agg.world_bound().pMax), lo + hi, 'scene-changed-bound', tag, tol=1e-9)
        if fog is not None:
            ctx.check(L(fog.b.pMin) == list(flo) and L(fog.b.pMax) == list(fhi), 'scene-changed-medium', tag)
        for i, (o, d) in enumerate(rays()):
            if i % 3:
                continue
            want = scan(name, o, d, 0., INF)
            judge(ctx, tag, name, sc, o, d, 0., INF, want)
            ctx.state(tag, i)
