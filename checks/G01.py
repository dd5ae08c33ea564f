"""G01: boxes as sets; slab test. Exact rational model on a dyadic lattice."""
from fractions import Fraction as F
from mc.pt import *

RULE = ('every union/expand history up to depth 3 (4 thorough) from two start boxes over an 11-letter alphabet, and every '
        'lattice box x origin x direction x interval; distinct = distinct resulting boxes and (box, ray, answer) triples')
ASSUME = ['lattice values are dyadic so that the float computation is exact and touching cases are decidable']

PTS = [(0, 0, 0), (1, 2, -1), (-2, 1, 3), (1, -1, 0), (0, 3, -2)]
BOXES = [((0, 0, 0), (1, 1, 1)), ((-1, 2, 0), (0, 2, 4)), ((-3, -3, -3), (-2, -1, 0))]
ALPHA = [('p', p) for p in PTS] + [('b', b) for b in BOXES] + [('e', 0.5), ('e', 2.0), ('n', None)]
STARTS = [None, ((0, 1, -1), (1, 1, 2))]

HULLS = [((0, 0, 0), (1, 1, 1)), ((-1, 0, .5), (1, 2, .5)), ((0, -2, 0), (0, 1, 2)), ((-1, 1, -1), (2, 1, 2)),
         ((1, 1, 1), (1, 1, 1)), ((-2, -1, 0), (-1, 3, 4)), ((-1, -1, -1), (1, 1, 1)), ((0, 0, -4), (4, .5, -2))]
DIRS = [d for d in grid((-1, 0, 1), (-1, 0, 1), (-1, 0, 1)) if any(d)] + [(2, .5, -1), (-.5, 2, .25), (1, 0, -4), (0, -.5, 2)] + [
        (-0., 1., -0.), (-1., -0., 0.), (-0., 0., 2.), (-0., -1., .5)]
IVS = [(0., INF), (0., 1.), (1.5, INF), (.5, 2.), (0., 0.), (-3., -1.), (-INF, INF)]


def CASES(tier):
    depth = 3 if tier == 'quick' else 4
    cs = [dict(k='hist', start=s, first=i, depth=depth) for s in range(len(STARTS)) for i in range(len(ALPHA))]
    cs += [dict(k='pair', a=i) for i in range(len(HULLS))]
    org = (-2, 0, .5, 1) if tier == 'quick' else (-2, -1, 0, .5, 1, 3)
    cs += [dict(k='ray', box=b, ox=ox, org=list(org)) for b in range(len(HULLS)) for ox in org]
    return cs


# model: None = empty, else (lo, hi) tuples
def m_union(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return (tuple(min(x, y) for x, y in zip(a[0], b[0])), tuple(max(x, y) for x, y in zip(a[1], b[1])))


def mk(b):
    if b is None:
        return BBox()
    return BBox(Pt(b[0]), Pt(b[1]))


def same(ctx, box, m, sig, msg):
    if m is None:
        ctx.check(L(box.pMin) == [INF] * 3 and L(box.pMax) == [-INF] * 3, sig, msg)
    else:
        ctx.check(L(box.pMin) == L(m[0]) and L(box.pMax) == L(m[1]), sig, '%s: got %r..%r want %r' % (msg, L(box.pMin), L(box.pMax), m))


def apply(ctx, box, m, op, hist):
    kind, arg = op
    if kind == 'e':
        if m is None:
            return box, m
        r = box.expand(arg)
        m2 = (tuple(x - arg for x in m[0]), tuple(x + arg for x in m[1]))
        ctx.check(r is box, 'expand-self', 'expand returns the box itself')
        same(ctx, box, m2, 'expand', 'after %r' % (hist,))
        return box, m2
    if kind == 'p':
        o = Pt(arg)
        om = (tuple(arg), tuple(arg))
        m2 = m_union(m, om)
        keep = L(o)
    else:
        o = mk(arg)
        m2 = m_union(m, arg)
        keep = (L(o.pMin), L(o.pMax))
    before = (L(box.pMin), L(box.pMax))
    u = BBox.Union(box, o)
    same(ctx, u, m2, 'Union', 'Union after %r' % (hist,))
    ctx.check((L(box.pMin), L(box.pMax)) == before, 'Union-mutates', 'Union changed its operand')
    u.pMin.x = -99.
    ctx.check((L(box.pMin), L(box.pMax)) == before, 'Union-aliases', 'Union result shares storage')
    if kind == 'b' or kind == 'n':
        u2 = BBox.Union(o, box)
        same(ctx, u2, m2, 'Union-comm', 'Union not commutative %r' % (hist,))
    r = box.union(o)
    same(ctx, box, m2, 'union', 'union after %r' % (hist,))
    same(ctx, r, m2, 'union-ret', 'union return value')
    now = L(o) if kind == 'p' else (L(o.pMin), L(o.pMax))
    ctx.check(now == keep, 'union-arg', 'union changed its argument')
    box.expand(0.)
    now = L(o) if kind == 'p' else (L(o.pMin), L(o.pMax))
    box.pMin.x = box.pMin.x + 0.
    ctx.check(now == keep, 'union-alias', 'union aliases its argument')
    return box, m2


def hist(case, ctx):
    start = STARTS[case['start']]

    def rec(prefix, depth):
        box, m = mk(start), start
        for n, i in enumerate(prefix):
            box, m = apply(ctx, box, m, ALPHA[i], prefix[:n + 1])
        ctx.state('h', m)
        ctx.trace()
        measures(ctx, box, m)
        if depth:
            for i in range(len(ALPHA)):
                rec(prefix + [i], depth - 1)
    rec([case['first']], case['depth'] - 1)


def measures(ctx, box, m):
    if m is None:
        return
    d = [float(h - l) for l, h in zip(*m)]
    ctx.close(box.surface_area(), 2 * (d[0] * d[1] + d[1] * d[2] + d[0] * d[2]), 'area', 'surface area of %r' % (m,))
    ctx.close(box.volume(), d[0] * d[1] * d[2], 'volume', 'volume of %r' % (m,))
    ax = box.maximum_extent()
    ctx.check(ax in (0, 1, 2) and d[ax] == max(d), 'axis', 'longest axis %r of %r' % (ax, d))
    c, r = box.bounding_sphere()
    ctx.close(c, [(l + h) / 2. for l, h in zip(*m)], 'sphere-c', 'centre')
    ctx.close(r, norm(d) / 2., 'sphere-r', 'radius')
    same(ctx, box, m, 'measure-mutates', 'measures changed the box')
    cp = BBox.from_bbox(box)
    same(ctx, cp, m, 'copy', 'copy')
    ctx.check(cp == box and not (cp != box), 'eq', 'copy compares different')
    cp.expand(1.)
    same(ctx, box, m, 'copy-alias', 'copy shares storage')
    ctx.check(cp != box and not (cp == box), 'neq', 'expanded copy compares equal')


def pair(case, ctx):
    ma = HULLS[case['a']]
    a = mk(ma)
    same(ctx, mk((ma[1], ma[0])), ma, 'ctor', 'corner order')
    same(ctx, BBox.from_bbox(BBox()), None, 'copy-empty', 'copy of the empty box')
    vals = (-3, -2, -1, 0, .25, .5, 1, 2, 4, 5)
    for p in grid(vals, vals, vals):
        want = all(l <= x <= h for l, x, h in zip(ma[0], p, ma[1]))
        ctx.check(bool(a.inside(Pt(p))) == want, 'inside', 'inside(%r) of %r' % (p, ma))
    for p in grid((-1, 0, .5, 3), (0, 1, -2), (.25, 2, -1)):
        d = [h - l for l, h in zip(*ma)]
        if all(d):
            ctx.close(a.offset(Pt(p)), [(x - l) / e for x, l, e in zip(p, ma[0], d)], 'offset', 'offset %r in %r' % (p, ma))
        ctx.close(a.lerp(*[float(t) for t in p]), [(1 - t) * l + t * h for t, l, h in zip(p, ma[0], ma[1])], 'lerp', 'lerp %r in %r' % (p, ma))
    shifts = grid((-5, -2, -1, 0, 1, 2, 5), (-4, -1, 0, 2, 4), (-3, 0, 1, 3))
    for mb0 in HULLS:
        for s in shifts:
            mb = (tuple(add(mb0[0], s)), tuple(add(mb0[1], s)))
            b = mk(mb)
            want = all(l1 <= h2 and l2 <= h1 for l1, h1, l2, h2 in zip(ma[0], ma[1], mb[0], mb[1]))
            ctx.state('ov', ma, mb, want)
            ctx.check(bool(a.overlaps(b)) == want and bool(b.overlaps(a)) == want, 'overlaps', '%r vs %r' % (ma, mb))
            ctx.check(bool(a == b) == (ma == mb) and bool(a != b) == (ma != mb), 'equality', '%r vs %r' % (ma, mb))
    same(ctx, a, ma, 'query-mutates', 'queries changed the box')
    ctx.check(a[0] is a.pMin or L(a[0]) == L(ma[0]), 'corner0', 'corner 0')
    ctx.check(a[1] is a.pMax or L(a[1]) == L(ma[1]), 'corner1', 'corner 1')
    ctx.trace()


def slab(m, o, d, t0, t1):
    for l, h, x, v in zip(m[0], m[1], o, d):
        if v == 0:
            if not (l <= x <= h):
                return None
        else:
            a, b = (F(l) - F(x)) / F(v), (F(h) - F(x)) / F(v)
            a, b = float(min(a, b)), float(max(a, b))
            t0, t1 = max(t0, a), min(t1, b)
    return (t0, t1) if t0 <= t1 else None


def ray(case, ctx):
    m = HULLS[case['box']]
    box = mk(m)
    for oy, oz in grid(case['org'], case['org']):
        o = (case['ox'], oy, oz)
        for d in DIRS:
            for kind in (Ray, RayDifferential):
                if kind is RayDifferential and d != DIRS[3]:
                    continue
                for t0, t1 in IVS:
                    r = kind(Pt(o), V(d), t0, t1)
                    want = slab(m, o, d, t0, t1)
                    got = box.intersect_p(r)
                    ctx.state('r', m, o, d, t0, t1)
                    ctx.outcome(want is not None)
                    if not ctx.check(bool(got[0]) == (want is not None), 'slab-hit', 'box %r ray %r %r [%r,%r]: got %r want %r' % (m, o, d, t0, t1, got, want)):
                        continue
                    if want is not None:
                        ctx.check(float(got[1]) == want[0] and float(got[2]) == want[1], 'slab-t', 'box %r ray %r %r [%r,%r]: got %r want %r' % (m, o, d, t0, t1, got, want))
                        ctx.sample(dict(box=m, o=o, d=d, interval=[t0, t1], answer=list(want)))
                    ctx.check(L(r.o) == L(o) and L(r.d) == L(d) and r.mint == t0 and r.maxt == t1, 'ray-mutated', 'ray changed')
    for d in DIRS:
        got = BBox().intersect_p(Ray(Pt((case['ox'], .5, 0.)), V(d)))
        ctx.check(not got[0], 'slab-empty', 'a ray along %r meets the empty box' % (d,))
    same(ctx, box, m, 'slab-mutates', 'intersection changed the box')
    ctx.trace()


def RUN(case, ctx):
    dict(hist=hist, pair=pair, ray=ray)[case['k']](case, ctx)
