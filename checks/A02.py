"""A02: histories of ray queries on shared aggregates."""
from mc.pt import *
from mc.scenes import *

RULE = ('every sequence of up to three queries (two for most aggregates in quick) (nearest or occlusion over a menu of rays, repeats of the ray and record just used, and moves on to a second aggregate) on one shared aggregate of every '
        'kind over catalogue scenes, each answer compared with a freshly built aggregate asked once; states are (scene, aggregate, history prefix) with the pattern of refined cells')
ASSUME = ['a fresh aggregate answers a single query correctly (A01)']
CHUNK = 1
PAIRS = {'floor': 'apart', 'mixed': 'two', 'blob': 'floor', 'apart': 'floor', 'onion': 'plate', 'box': 'ball', 'hills': 'ball'}
KINDS = ['simple', 'list', 'grid', 'lazygrid', 'bvh-sah-4', 'bvh-middle-2']

MENU = [((3., .2, .1), (-2.9, -.15, -.05), 0., INF), ((.3, .2, 3.3), (0., 0., -1.), 0., INF), ((.3, .2, 3.3), (0., 0., -1.), 0., 2.), ((-2.7, -.4, .3), (1., .16, -.1), .5, INF),
        ((4., 4., 4.), (1., .3, .2), 0., INF), ((.05, .1, -.03), (.4, -.7, -1.), 1e-3, INF), ((.2, -3., .1), (.05, 1., .02), 0., 60.)]
OPS = [('n', i) for i in range(len(MENU))] + [('o', 1), ('o', 3), ('o', 4), ('o', 5), ('again', 0), ('againocc', 0), ('second', 0)]


def CASES(tier):
    cs = []
    for s in ('floor', 'mixed') if tier == 'quick' else PAIRS:
        for c in KINDS:
            for f in range(len(OPS)):
                if OPS[f][0] in ('again', 'againocc', 'second'):
                    continue
                cs.append(dict(s=s, c=c, f=f, depth=3 if tier != 'quick' or (s, c) == ('floor', 'lazygrid') else 2))
    return cs


_fresh = {}


def describe(isect):
    if isect.primitive is None:
        return None
    d = isect.dg
    sh_ = isect.primitive.shape
    return (isect.primitive.material.k, tuple(round(x, 9) for x in L(d.p) + L(d.nn) + L(d.dpdu) + L(d.dpdv) + [float(d.u), float(d.v)]))


def fresh(name, conf, o, d, a, z):
    """answers of an aggregate nobody has used before"""
    key = (name, conf, o, d, a, z)
    if key not in _fresh:
        if len(_fresh) > 4000:
            _fresh.clear()
        agg = build(conf, [s for s, _ in objects(name)])
        r = Ray(Pt(o), V(d), a, z)
        i = Intersection()
        hit = bool(agg.intersect(r, i))
        agg = build(conf, [s for s, _ in objects(name)])
        occ = bool(agg.intersect_p(Ray(Pt(o), V(d), a, z)))
        _fresh[key] = (hit, float(r.maxt), describe(i), occ)
    return _fresh[key]


def refined(agg):
    return tuple(bool(getattr(v, 'all_can_intersect', None)) for v in getattr(agg, 'voxels', []) if v is not None)


def check_record(ctx, tag, isect, r, name):
    p = isect.primitive
    ctx.check(isect.shapeId == p.shape.shapeId and isect.primitiveId == p.primitiveId and isect.dg.shape is p.shape, 'record-ids', '%s: shape %r/%r primitive %r/%r' % (
        tag, isect.shapeId, p.shape.shapeId, isect.primitiveId, p.primitiveId))
    ctx.check(isect.o2w is p.shape.o2w and isect.w2o is p.shape.w2o, 'record-transforms', tag)
    ctx.check(0. < float(isect.rEps) <= .1 * (1 + float(r.maxt)), 'record-eps', tag)
    ctx.close(L(isect.dg.p), L(r(r.maxt)), 'record-point', tag, tol=2e-5)
    # the recorded object itself reports that hit
    hit, t, e, dg = p.shape.intersect(Ray(Pt(r.o), V(r.d), r.mint, float(r.maxt) * (1. + 1e-9)))
    ctx.check(hit and abs(float(t) - float(r.maxt)) <= 1e-9 * (1. + float(r.maxt)), 'record-object', '%s: the recorded object is hit at %r, the ray was cut at %r' % (tag, t, r.maxt))


def play(ctx, case, seq, tag):
    name, conf = case['s'], case['c']
    other = PAIRS[name]
    agg = build(conf, [s for s, _ in objects(name)])
    agg2 = None
    r = isect = None
    for n, (op, i) in enumerate(seq):
        where = '%s step %d' % (tag, n)
        if op in ('n', 'o'):
            o, d, a, z = MENU[i]
            r = Ray(Pt(o), V(d), a, z, time=.25)
            if op == 'n':
                isect = Intersection()
        elif r is None or isect is None and op != 'againocc':
            isect = isect or Intersection()
        o, d, a, z = L(r.o), L(r.d), float(r.mint), float(r.maxt)
        tgt, tn = agg, name
        if op == 'second':
            if agg2 is None:
                agg2 = build(conf, [s for s, _ in objects(other)])
            tgt, tn = agg2, other
        hit, t, rec, occ = fresh(tn, conf, tuple(o), tuple(d), a, z)
        before = describe(isect) if isect is not None else None
        if op in ('o', 'againocc'):
            got = bool(tgt.intersect_p(r))
            ctx.check(got == occ, 'occlusion', '%s: %r, alone it is %r' % (where, got, occ))
            ctx.check(float(r.maxt) == z, 'occlusion-shortened', '%s: limit %r became %r' % (where, z, r.maxt))
        else:
            got = bool(tgt.intersect(r, isect))
            ctx.check(got == hit, 'hit', '%s: %r, alone it is %r' % (where, got, hit))
            if got and hit:
                ctx.check(float(r.maxt) <= z and abs(float(r.maxt) - t) <= 1e-12 * (1 + t), 'limit', '%s: limit %r, alone it is %r' % (where, r.maxt, t))
                ctx.check(describe(isect) == rec, 'record', '%s: %r, alone it is %r' % (where, describe(isect), rec))
                check_record(ctx, where, isect, r, tn)
            elif not got:
                ctx.check(float(r.maxt) == z and (describe(isect) == before), 'miss-left-traces', '%s: limit %r to %r' % (where, z, r.maxt))
        ctx.check(L(r.o) == o and L(r.d) == d and float(r.mint) == a and float(r.time) == .25, 'ray-moved', where)
    ctx.state(name, conf, tuple(seq), refined(agg))


def RUN(case, ctx):
    f = OPS[case['f']]
    for d in range(1, case['depth'] + 1):
        for rest in itertools.product(OPS, repeat=d - 1):
            if case['c'] not in ('lazygrid',) and d == 3 and (OPS.index(rest[0]) + OPS.index(rest[1]) + case['f']) % 3 and rest[1][0] in 'no' and rest[0][0] in 'no':
                # fresh rays after fresh rays: all of them on lazily refined grids, a third elsewhere
                continue
            seq = (f,) + rest
            play(ctx, case, seq, '%s/%s %r' % (case['s'], case['c'], seq))
            ctx.trace()
    ctx.outcome('%s/%s' % (case['s'], case['c']))
    ctx.sample(dict(case, ops=[OPS[case['f']]]))
