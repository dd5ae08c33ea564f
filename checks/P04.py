"""P04: sample warps preserve measure, and multiple-importance weights partition unity."""
from mc.pt import *
from pytracer.montecarlo import (balance_heuristic, power_heuristic, rejection_sample_disk, uniform_sample_hemisphere, uniform_hemisphere_pdf,
                                 uniform_sample_sphere, uniform_sphere_pdf, uniform_sample_disk, concentric_sample_disk, cosine_sample_hemisphere,
                                 cosine_hemisphere_pdf, uniform_sample_cone, uniform_cone_pdf, uniform_sample_triangle, sample_hg, hg_pdf)

RULE = ('every cell of an N x N grid over the unit square (centres: domain, numerical area element against the reported density, census of 16 analytic bins of equal '
        'probability; boundary nodes: domain) for every warp and parameter of an alphabet; the heuristics over all counts and densities of an alphabet; '
        'rejection over all outcomes of up to three draws of a scripted source; distinct states are (warp, parameter, grid cell)')
ASSUME = ['area elements are central differences, compared to 1e-3 relative away from seams and poles', 'the census tolerance is the number of cells a bin border can cross']

CONES = [.9, .5, 0., -.5, .999, -1.]
GS = [0., .3, -.3, .8, -.8, 1e-6, .05, -.01]
AXES = [(0, 0, 1), (0, 0, -1), (1, 0, 0), (1, -2, .5), (-1, -1, 1)]
BASES = [((1, 0, 0), (0, 1, 0), (0, 0, 1)), ((0, 1, 0), (0, 0, 1), (1, 0, 0))]


def WARPS():
    w = [('disk', None), ('concentric', None), ('sphere', None), ('hemi', None), ('cos', None), ('tri', None)]
    w += [('cone', [c, None]) for c in CONES] + [('cone', [c, b]) for c in CONES for b in range(2)]
    w += [('hg', [g, a]) for g in GS for a in range(len(AXES))]
    return w


def CASES(tier):
    n = 24 if tier == 'quick' else 96
    cs = [dict(k='warp', w=w, p=p, n=n) for w, p in WARPS()]
    cs += [dict(k='mis', nf=a, ng=b) for a in (1, 2, 3, 16) for b in (1, 2, 3, 16)]
    cs += [dict(k='rej')]
    return cs


CHUNK = 1


def f(w, p, u1, u2):
    """real warp -> list"""
    if w == 'disk':
        return L(uniform_sample_disk(u1, u2))
    if w == 'concentric':
        return L(concentric_sample_disk(u1, u2))
    if w == 'sphere':
        return L(uniform_sample_sphere(u1, u2))
    if w == 'hemi':
        return L(uniform_sample_hemisphere(u1, u2))
    if w == 'cos':
        return L(cosine_sample_hemisphere(u1, u2))
    if w == 'tri':
        return L(uniform_sample_triangle(u1, u2))
    if w == 'cone':
        if p[1] is None:
            return L(uniform_sample_cone(u1, u2, p[0]))
        return L(uniform_sample_cone(u1, u2, p[0], *[V(b) for b in BASES[p[1]]]))
    return L(sample_hg(V(unit(AXES[p[1]])), p[0], u1, u2))


def local(w, p, q):
    """world direction -> coordinates with the warp's axis as z"""
    if w == 'cone' and p[1] is not None:
        b = BASES[p[1]]
        return [dot(q, x) for x in b]
    if w == 'hg':
        z = unit(AXES[p[1]])
        x = unit(cross(z, (0, 1, 0) if abs(z[1]) < .9 else (1, 0, 0)))
        return [dot(q, x), dot(q, cross(z, x)), dot(q, z)]
    return q


def density(w, p, q):
    """reported density (per solid angle or area)"""
    if w in ('disk', 'concentric'):
        return 1. / math.pi
    if w == 'sphere':
        return float(uniform_sphere_pdf())
    if w == 'hemi':
        return float(uniform_hemisphere_pdf())
    if w == 'cos':
        return float(cosine_hemisphere_pdf(q[2], 0.))
    if w == 'tri':
        return 2.
    if w == 'cone':
        return float(uniform_cone_pdf(p[0]))
    return float(hg_pdf(V(unit(AXES[p[1]])), V(q), p[0]))


def true_density(w, p, q):
    c = local(w, p, q)[-1]
    if w in ('disk', 'concentric'):
        return 1 / math.pi
    if w == 'sphere':
        return 1 / (4 * math.pi)
    if w == 'hemi':
        return 1 / (2 * math.pi)
    if w == 'cos':
        return c / math.pi
    if w == 'tri':
        return 2.
    if w == 'cone':
        return 1 / (2 * math.pi * (1 - p[0]))
    g = p[0]
    return (1 - g * g) / (1 + g * g - 2 * g * c) ** 1.5 / (4 * math.pi)


def height_cdf(w, p, c):
    """probability of cos theta <= c (or radius^2 <= c for disks)"""
    if w in ('disk', 'concentric'):
        return c
    if w == 'sphere':
        return (1 + c) / 2
    if w == 'hemi':
        return c
    if w == 'cos':
        return c * c
    if w == 'cone':
        return (c - p[0]) / (1 - p[0])
    g = p[0]
    if abs(g) < 1e-4:
        return (1 + c) / 2
    return (1 - g * g) / (2 * g) * (1 / math.sqrt(1 + g * g - 2 * g * c) - 1 / (1 + g))


def in_domain(w, p, q):
    e = 1e-9
    if w in ('disk', 'concentric'):
        return len(q) == 2 and dot(q, q) <= 1 + e
    if w == 'tri':
        return len(q) == 2 and q[0] >= -e and q[1] >= -e and q[0] + q[1] <= 1 + e
    if len(q) != 3 or abs(norm(q) - 1.) > 1e-7:
        return False
    c = local(w, p, q)[2]
    if w in ('hemi', 'cos'):
        return c >= -e
    if w == 'cone':
        return c >= p[0] - e
    return True


def RUN(case, ctx):
    ctx.outcome(case['k'])
    ctx.sample(case)
    if case['k'] == 'mis':
        return mis(case, ctx)
    if case['k'] == 'rej':
        return rej(ctx)
    w, p, n = case['w'], case['p'], case['n']
    tag = '%s %r' % (w, p)
    if w in ('cone', 'hg', 'cos'):
        x = V(unit(AXES[3]))
        k = L(x)
        if w == 'hg':
            sample_hg(x, p[0], .3, .7)
        elif w == 'cone':
            uniform_sample_cone(.3, .7, p[0], x, V((0, 1, 0)), V((0, 0, 1)))
        ctx.check(L(x) == k, 'argument-modified', tag)
    # boundary nodes
    for i in range(n + 1):
        for j in (0., .25, .5, 1. - 2. ** -53, 1.):
            for u in ((i / n, j), (j, i / n)):
                q = f(w, p, *u)
                ctx.check(all(x == x for x in q) and in_domain(w, p, q), 'domain', '%s at %r -> %r' % (tag, u, q))
    census = [0] * 16
    near = [0] * 16
    last = {}
    for i in range(n):
        for j in range(n):
            u = ((i + .5) / n, (j + .5) / n)
            q = f(w, p, *u)
            if not ctx.check(all(x == x for x in q) and in_domain(w, p, q), 'domain', '%s at %r -> %r' % (tag, u, q)):
                return
            d = density(w, p, q)
            ctx.close(d, true_density(w, p, q), 'density', '%s at %r' % (tag, u), tol=1e-6)
            # area element
            h = 1e-5
            a = [(y - x) / (2 * h) for x, y in zip(f(w, p, u[0] - h, u[1]), f(w, p, u[0] + h, u[1]))]
            b = [(y - x) / (2 * h) for x, y in zip(f(w, p, u[0], u[1] - h), f(w, p, u[0], u[1] + h))]
            if w == 'concentric' and (abs(abs(u[0] - .5) - abs(u[1] - .5)) < 3 * h):
                ctx.skip()      # on the seam between wedges the map has a kink
            else:
                ar = norm(cross(a + [0.], b + [0.])) if len(a) == 2 else norm(cross(a, b))
                ctx.check(abs(ar * d - 1.) < 1e-3, 'area-element', '%s at %r: element %r, density %r' % (tag, u, ar, d))
            if w == 'concentric':
                # neighbours land next to each other
                if (i, j - 1) in last:
                    ctx.check(norm(sub(q, last[i, j - 1])) < 4. / n, 'continuous', '%s at %r' % (tag, u))
                if (i - 1, j) in last:
                    ctx.check(norm(sub(q, last[i - 1, j])) < 4. / n, 'continuous', '%s at %r' % (tag, u))
                last[i, j] = q
            # census over 4 x 4 bins of equal probability
            lq = local(w, p, q)
            if w == 'tri':
                hgt, ang = 1 - (1 - lq[0]) ** 2, lq[1] / max(1e-12, 1 - lq[0])
            else:
                hgt = height_cdf(w, p, dot(lq, lq) if len(lq) == 2 else lq[2])
                ang = (math.atan2(lq[1], lq[0]) / (2 * math.pi)) % 1.
            census[min(3, int(hgt * 4)) * 4 + min(3, int(ang * 4))] += 1
            ctx.state(w, p, i, j)
    ctx.check(all(abs(c - n * n / 16.) <= 2.5 * n for c in census), 'census', '%s: %r of %d cells' % (tag, census, n * n))
    ctx.trace()


def mis(case, ctx):
    nf, ng = case['nf'], case['ng']
    ds = [0., 1e-6, .25, 1., 3., 1e6]
    for pf in ds:
        for pg in ds:
            if pf == 0. and pg == 0.:
                continue
            a, b = balance_heuristic(nf, pf, ng, pg), balance_heuristic(ng, pg, nf, pf)
            ctx.close(a + b, 1., 'balance-sum', (nf, pf, ng, pg), tol=1e-9)
            ctx.close(a, nf * pf / (nf * pf + ng * pg), 'balance', (nf, pf, ng, pg), tol=1e-9)
            a, b = power_heuristic(nf, pf, ng, pg), power_heuristic(ng, pg, nf, pf)
            ctx.close(a + b, 1., 'power-sum', (nf, pf, ng, pg), tol=1e-9)
            ctx.close(a, (nf * pf) ** 2 / ((nf * pf) ** 2 + (ng * pg) ** 2), 'power', (nf, pf, ng, pg), tol=1e-9)
            ctx.check(0. <= a <= 1. and 0. <= b <= 1., 'power-range', (nf, pf, ng, pg))
            ctx.state('mis', nf, pf, ng, pg)
    ctx.trace()


def rej(ctx):
    vals = [0., .05, .25, .5, .9, 1. - 2. ** -53]
    pairs = list(itertools.product(vals, repeat=2))
    for seq in itertools.product(pairs, repeat=2):
        flat = [x for q in seq + ((.5, .25),) for x in q]
        it = iter(flat)
        got = L(rejection_sample_disk(lambda: next(it)))
        want = next(q for q in ([1 - 2 * a, 1 - 2 * b] for a, b in seq + ((.5, .25),)) if q[0] ** 2 + q[1] ** 2 <= 1.)
        ctx.check(got == want, 'rejection', '%r -> %r' % (flat, got))
        ctx.state('rej', seq)
        ctx.trace()
