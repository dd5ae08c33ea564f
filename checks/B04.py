"""B04: lobe sampling against the lobe's own density."""
from mc.pt import *
from checks.B01 import MODELS, make, wrap, sp, SC, dist
from pytracer.reflection import *

RULE = ('every lobe kind with parameters from an alphabet, plain, mirrored and scaled x outgoing directions on both sides (normal to near grazing) x every cell of a grid over the sampling square (and its edges): '
        'returned direction, value and density against asking afterwards; the fraction of cells landing in each of 48 direction regions against the integral of the density over the region')
ASSUME = ['the census and the quadrature agree to 0.012 per region at the grid sizes used', 'a sample falling on the wrong side of the surface must carry no value; its reported density is not compared']
LOBES = [m for m in MODELS if m[0] in ('lamb', 'oren') or m[0] == 'blend' or m[0] == 'micro' and m[2] == 'full' and max(m[3][1:]) < 100]
# exponents close to each other
LOBES += [('micro', (.8, .5, .2), 'full', ('aniso', .05, .95)), ('micro', (.8, .5, .2), 'full', ('aniso', 1.9, 1.2))]
HALF = [('blinn', e) for e in (.5, 100., 2500., 1e5)] + [('aniso', a, b) for a, b in ((2000., 500.), (0., 3.), (40., 40.), (.05, .95), (1e5, 3.), (2., 900.))]
TH = (0., 30., 60., 80.)


def CASES(tier):
    cs = [dict(k='half', d=list(d), n=48 if tier == 'quick' else 200) for d in HALF]
    for i, m in enumerate(LOBES):
        for w in ('plain', 'btdf', 'scaled', 'scaledbtdf'):
            for j in range(len(TH)):
                if tier == 'quick' and (w != 'plain' and (i + j) % 4 or w == 'plain' and m[0] == 'oren' and j % 2):
                    continue
                if tier == 'quick' and j == 3 and m[-1] == ('blinn', 25.):
                    continue
                for side in (1, -1):
                    if tier == 'quick' and (i + j + (side > 0) + len(w)) % 2:
                        continue
                    cs.append(dict(k='lobe', m=i, w=w, th=j, side=side, n=32 if tier == 'quick' else 80))
    return cs


def region(b, wo, out, k, h, K, P, Q):
    s = 0.
    for i in range(Q):
        z = (k + (i + .5) / Q) / K
        r = math.sqrt(1 - z * z)
        for j in range(Q):
            ph = 2 * math.pi * (h + (j + .5) / Q) / P
            s += float(b.pdf(wo, V((r * math.cos(ph), r * math.sin(ph), out * z))))
    return s * 2 * math.pi / (K * P * Q * Q)


def closer(b, wo, out, k, h, K, P, n):
    c = 0
    for i in range(n):
        for j in range(n):
            d = L(b.sample_f(wo, (i + .5) / n, (j + .5) / n)[1])
            if d[2] * out > 0 and min(K - 1, int(abs(d[2]) * K)) == k and int((math.atan2(d[1], d[0]) / (2 * math.pi) % 1.) * P) % P == h:
                c += 1
    return c / float(n * n)


def run_half(case, ctx):
    """half-angle directions of microfacet samples against the distribution's closed form, however narrow"""
    d, n = tuple(case['d']), case['n']
    ex, ey = [min(1e4, e) for e in ((d[1], d[1]) if d[0] == 'blinn' else d[1:])]     # no lobe is narrower than exponent 10000
    b = make(('micro', (.8, .5, .2), 'full', d))
    ex_ = lambda ph: ex * math.cos(ph) ** 2 + ey * math.sin(ph) ** 2
    nrm = math.sqrt((ex + 1) * (ey + 1)) / (2 * math.pi)
    P, M = 8, 400
    for o in ((0., 0., 1.), (0., 0., -1.), unit((.1, .05, 1.)), unit((.2, -.3, -1.))):
        wo, tag = V(o), '%r wo=%r' % (d, o)
        s = 1 if o[2] > 0 else -1
        hs = []
        for i in range(n):
            for j in range(n):
                u = ((i + .5) / n, (j + .5) / n)
                pdf, wi, f = b.sample_f(wo, *u)
                w = L(wi)
                ctx.check(abs(norm(w) - 1) < 1e-6, 'unit', '%s u=%r: %r' % (tag, u, w))
                h = add(o, w)
                if norm(h) < 1e-6:
                    ctx.skip()
                    h = None
                else:
                    h = unit(h)
                    h = mul(h, 1. if h[2] > 0 else -1.)
                    c = min(1., h[2])
                    oh = abs(dot(o, h))
                    ph = math.atan2(h[1], h[0])
                    if w[2] * s > 0 and (c < 1 - 1e-12 or ex == ey):
                        want = nrm * c ** ex_(ph) / (4 * oh)
                        ctx.check(abs(float(pdf) - want) <= 1e-4 * (1 + want), 'half-density', '%s u=%r: %r, want %r' % (tag, u, pdf, want))
                    h = (c, ph % (2 * math.pi))
                hs.append(h)
                ctx.state(d, o, i, j)
        if abs(o[2]) < 1 and min(ex, ey) < 20:
            continue            # reflections off the surface leave half-angle directions unknown
        emid = math.sqrt(ex * ey) if ex and ey else max(ex, ey)
        for q in (.1, .3, .5, .7, .9):
            c0 = q ** (1. / (emid + 1))
            for k in range(P):
                got = sum(1 for h in hs if h and h[0] >= c0 and min(P - 1, int(h[1] / (2 * math.pi) * P)) == k) / float(n * n)
                want = 0.
                for t in range(M):
                    e = ex_(2 * math.pi * (k + (t + .5) / M) / P)
                    want += nrm * (1 - c0 ** (e + 1)) / (e + 1) * 2 * math.pi / P / M
                ctx.check(abs(got - want) <= (.011 if n < 100 else .003), 'half-census', '%s: cosine above %r in octant %d: %r of the samples, want %r' % (tag, c0, k, got, want))
                ctx.state(d, o, 'q', q, k)
    ctx.outcome('half')
    ctx.trace()
    ctx.sample(case)


def RUN(case, ctx):
    if case['k'] == 'half':
        return run_half(case, ctx)
    m, w = LOBES[case['m']], case['w']
    b = wrap(make(m), w)
    side, n = case['side'], case['n']
    t = math.radians(TH[case['th']])
    a = .4
    o = (math.sin(t) * math.cos(a), math.sin(t) * math.sin(a), side * math.cos(t))
    wo = V(o)
    out = -side if 'btdf' in w else side           # side light comes from
    tag0 = '%r %s wo=%r' % (m, w, o)
    K, P = 6, 8
    census = {}
    us = [((i + .5) / n, (j + .5) / n, 1) for i in range(n) for j in range(n)]
    top = 1 - 2. ** -30
    us += [(u, v, 0) for u in (0., .25, .5, .75, top) for v in (0., .5, top)]
    for u1, u2, count in us:
        tag = '%s u=(%r, %r)' % (tag0, u1, u2)
        pdf, wi, f = b.sample_f(wo, u1, u2)
        d, p, f = L(wi), float(pdf), [float(x) for x in f]
        ctx.check(p == p and 0. <= p < INF, 'density-finite', '%s: %r' % (tag, p))
        ctx.check(all(x == x and 0 <= x < INF for x in f), 'value-finite', '%s: %r' % (tag, f))
        if not ctx.check(abs(norm(d) - 1) < 1e-6, 'unit', '%s: %r' % (tag, d)):
            continue
        if abs(d[2]) < 1e-9:
            ctx.skip()
            continue
        if d[2] * out > 0:
            q = float(b.pdf(wo, V(d)))
            ctx.check(abs(p - q) <= 1e-6 * (1 + q), 'density-afterwards', '%s: sampled %r, asked %r' % (tag, p, q))
            ctx.close(f, [float(x) for x in b.f(wo, V(d))], 'value-afterwards', tag, tol=1e-6)
            if count:
                k = (min(K - 1, int(abs(d[2]) * K)), int((math.atan2(d[1], d[0]) / (2 * math.pi) % 1.) * P) % P)
                census[k] = census.get(k, 0) + 1
        else:
            ctx.check(f == [0.] * 3, 'wrong-side-value', '%s: %r %r' % (tag, d, f))
            ctx.check(m[0] in ('micro', 'blend'), 'wrong-side', '%s: %r' % (tag, d))
            ctx.check(float(b.pdf(wo, V(d))) == 0., 'wrong-side-density', tag)
        ctx.state(case['m'], w, case['th'], side, u1, u2)
    Q = 5 if n < 50 else 9
    tot = 0.
    for k in range(K):
        for h in range(P):
            s = region(b, wo, out, k, h, K, P, Q)
            c = census.get((k, h), 0) / float(n * n)
            if abs(c - s) > .012:            # peaked: look closer before judging
                s = region(b, wo, out, k, h, K, P, 48)
                c = closer(b, wo, out, k, h, K, P, 3 * n)
            tot += s
            ctx.check(abs(c - s) <= .012, 'census', '%s: region %d/%d holds %r of the samples, density says %r' % (tag0, k, h, c, s))
    ctx.check(tot <= 1.02, 'density-integral', '%s: %r' % (tag0, tot))
    wrong = [float(b.pdf(wo, V((.6 * math.cos(x), .6 * math.sin(x), -out * .8)))) for x in (0., 1., 2.5, 4.)]
    ctx.check(wrong == [0.] * 4, 'other-side-density', '%s: %r' % (tag0, wrong))
    ctx.check(L(wo) == list(o), 'argument-changed', tag0)
    ctx.outcome('%s/%s' % (m[0], w))
    ctx.trace()
    ctx.sample(case)
