"""B01: scattering functions against closed forms; symmetry, finiteness and energy."""
from mc.pt import *
from pytracer import Spectrum
from pytracer.reflection import *
from pytracer.reflection.fresnel import FresnelConductor, FresnelDielectric, FresnelFullReflect
from pytracer.reflection.bdf.orennayar import OrenNayar

RULE = ('every model (13 base models with parameter alphabet, each also mirrored to the transmission side and scaled) x every ordered pair of directions of a spherical grid on both sides, compared with '
        'closed forms on the scattering side; reflectance by midpoint quadrature for every outgoing direction of the grid; states are (model, pair)')
ASSUME = ['directions exactly in the surface are left out; the anisotropic distribution is not compared exactly at its pole, where it is defined as zero; '
          'values for direction pairs the container never asks a lobe for (wrong side) are only required to be finite, non-negative and symmetric']

C1, C2, C3 = (.8, .5, .2), (1., 1., 1.), (.3, 0., .9)
FR = {'full': (), 'diel': (1., 1.5), 'dense': (1.5, 1.), 'cond': ((.2, 1.1, 2.), (3.9, 2.5, .3))}
MODELS = ([('lamb', c) for c in (C1, C2)] +
          [('oren', C1, s) for s in (0., 15., 60.)] +
          [('micro', C2, f, d) for f in ('full', 'diel', 'cond') for d in (('blinn', 0.), ('blinn', 2.), ('blinn', 25.), ('aniso', 4., 4.), ('aniso', 20., 3.), ('aniso', 0., 12.))] +
          [('micro', C1, 'dense', ('blinn', 8.)), ('micro', C1, 'full', ('blinn', 300.)), ('micro', C3, 'cond', ('aniso', 200., 90.))] +
          [('blend', C1, C3, ('blinn', 10.)), ('blend', C2, (.05,) * 3, ('blinn', 2.)), ('blend', C3, C1, ('aniso', 15., 6.)), ('blend', C2, C2, ('blinn', 5.)), ('blend', C2, (0., 0., 0.), ('blinn', 5.))])
WRAP = ('plain', 'btdf', 'scaled', 'scaledbtdf')
SC = (.5, 1., .25)


def CASES(tier):
    cs = []
    for i, m in enumerate(MODELS):
        for w in WRAP:
            if tier == 'quick' and w != 'plain' and (i + WRAP.index(w)) % 3:
                continue
            cs.append(dict(k='pairs', m=i, w=w, az=4 if tier == 'quick' else 12))
        if m[0] in ('lamb', 'oren') or max(m[-1][1:]) <= 12:
            for j in (0, 2, 3) if tier == 'quick' else range(len(TH)):
                cs.append(dict(k='energy', m=i, th=j, n=16 if tier == 'quick' else 48))
    return cs


TH = (0., 12., 35., 60., 80., 89.5)


def sp(c):
    return Spectrum.from_rgb(list(c))


def dist(d):
    return Blinn(d[1]) if d[0] == 'blinn' else Anisotropic(d[1], d[2])


def fresnel(f):
    a = FR[f]
    return FresnelFullReflect() if f == 'full' else FresnelConductor(sp(a[0]), sp(a[1])) if f == 'cond' else FresnelDielectric(*a)


def make(m):
    if m[0] == 'lamb':
        return Lambertian(sp(m[1]))
    if m[0] == 'oren':
        return OrenNayar(sp(m[1]), m[2])
    if m[0] == 'micro':
        return Microfacet(sp(m[1]), fresnel(m[2]), dist(m[3]))
    return FresnelBlend(sp(m[1]), sp(m[2]), dist(m[3]))


def wrap(b, w):
    if 'btdf' in w:
        b = BRDF2BTDF(b)
    if 'scaled' in w:
        b = ScaledBDF(b, sp(SC))
    return b


# ---- closed forms
def r_fresnel(f, c):
    if f == 'full':
        return [1.] * 3
    if f == 'cond':
        out = []
        for e, k in zip(*FR[f]):
            t = e * e + k * k
            out.append(.5 * ((t * c * c - 2 * e * c + 1) / (t * c * c + 2 * e * c + 1) + (t - 2 * e * c + c * c) / (t + 2 * e * c + c * c)))
        return out
    a, b = FR[f]
    s = a / b * math.sqrt(max(0., 1 - c * c))
    if s >= 1:
        return [1.] * 3
    t = math.sqrt(1 - s * s)
    p, q = (b * c - a * t) / (b * c + a * t), (a * c - b * t) / (a * c + b * t)
    return [.5 * (p * p + q * q)] * 3


def r_D(d, h):
    c = abs(h[2])
    if d[0] == 'blinn':
        return (d[1] + 2) / (2 * math.pi) * c ** d[1]
    s2 = h[0] ** 2 + h[1] ** 2
    if s2 < 1e-12:
        return None
    e = (d[1] * h[0] ** 2 + d[2] * h[1] ** 2) / s2
    return math.sqrt((d[1] + 2) * (d[2] + 2)) / (2 * math.pi) * c ** e


def ref(m, o, i):
    """value for directions on one side, or None where not defined"""
    co, ci = abs(o[2]), abs(i[2])
    if m[0] == 'lamb':
        return [c / math.pi for c in m[1]]
    if m[0] == 'oren':
        s2 = math.radians(m[2]) ** 2
        A, B = 1 - s2 / (2 * (s2 + .33)), .45 * s2 / (s2 + .09)
        to, ti = math.acos(min(1, co)), math.acos(min(1, ci))
        dphi = math.atan2(o[1], o[0]) - math.atan2(i[1], i[0])
        mc_ = max(0., math.cos(dphi)) if min(math.sin(to), math.sin(ti)) > 1e-5 else 0.
        k = A + B * mc_ * math.sin(max(to, ti)) * math.tan(min(to, ti))
        return [c * k / math.pi for c in m[1]]
    h = unit(add(o, i))
    oh = abs(dot(o, h))
    D = r_D(m[-1], h)
    if D is None:
        return None
    if m[0] == 'micro':
        G = min(1., 2 * abs(h[2]) * co / oh, 2 * abs(h[2]) * ci / oh)
        F = r_fresnel(m[2], oh)
        return [c * D * G * f / (4 * co * ci) for c, f in zip(m[1], F)]
    out = []
    for d, s in zip(m[1], m[2]):
        df = 28. / (23 * math.pi) * d * (1 - s) * (1 - (1 - ci / 2) ** 5) * (1 - (1 - co / 2) ** 5)
        out.append(df + D / (4 * oh * max(ci, co)) * (s + (1 - oh) ** 5 * (1 - s)))
    return out


def dirs(az):
    out = [(0., 0., 1.), (0., 0., -1.)]
    for t in TH[1:]:
        for k in range(az):
            a = 2 * math.pi * k / az + .1
            s, c = math.sin(math.radians(t)), math.cos(math.radians(t))
            out += [(s * math.cos(a), s * math.sin(a), c), (s * math.cos(a), s * math.sin(a), -c)]
    for t, a in ((.2, 2.), (3., .4), (3., 4.)):  # close to the normal
        s, c = math.sin(math.radians(t)), math.cos(math.radians(t))
        out += [(s * math.cos(a), s * math.sin(a), c), (s * math.cos(a), s * math.sin(a), -c)]
    return out


def RUN(case, ctx):
    globals()['run_' + case['k']](case, ctx)
    ctx.outcome('%s/%s' % (case['k'], MODELS[case['m']][0]))
    ctx.trace()
    ctx.sample(case)


def run_pairs(case, ctx):
    m, w = MODELS[case['m']], case['w']
    b = wrap(make(m), w)
    ds = dirs(case['az'])
    vs = [V(d) for d in ds]
    tr = 'btdf' in w
    sc = SC if 'scaled' in w else (1., 1., 1.)
    want_type = (TRANSMISSION if tr else REFLECTION) | (DIFFUSE if m[0] in ('lamb', 'oren') else GLOSSY)
    ctx.check(int(b.type.v) == want_type, 'kind', '%r %s: %r' % (m, w, b.type))
    tab = {}
    for i, o in enumerate(ds):
        for j, n in enumerate(ds):
            f = [float(x) for x in b.f(vs[i], vs[j])]
            tab[i, j] = f
            tag = '%r %s wo=%r wi=%r' % (m, w, o, n)
            ctx.check(len(f) == 3 and all(x == x and 0. <= x < INF for x in f), 'finite', '%s: %r' % (tag, f))
            ctx.state(case['m'], w, i, j)
            if (o[2] * n[2] < 0) == tr:
                want = ref(m, o, (n[0], n[1], -n[2]) if tr else n)
                if want is not None:
                    ctx.close(f, [x * s for x, s in zip(want, sc)], 'value', tag, tol=1e-6)
                else:
                    ctx.skip()
            if i >= j:
                ctx.close(f, tab[j, i] if j <= i and (j, i) in tab else f, 'symmetry', tag, tol=1e-9)
    ctx.check(all(L(v) == list(d) for v, d in zip(vs, ds)), 'arguments-changed', repr(m))


REFLECTION, TRANSMISSION, DIFFUSE, GLOSSY = 1, 2, 4, 8


def run_energy(case, ctx):
    m, n = MODELS[case['m']], case['n']
    b = make(m)
    t = math.radians(TH[case['th']])
    grid_ = [((i + .5) / n, (j + .5) / n) for i in range(n) for j in range(n)]
    for side in (1, -1):
        for a in (.3 if side > 0 else 1.7,):
            o = (math.sin(t) * math.cos(a), math.sin(t) * math.sin(a), side * math.cos(t))
            wo = V(o)
            tag = '%r wo=%r' % (m, o)
            tot = [0.] * 3
            for u, v in grid_:
                # cosine-weighted strata: equal shares of projected solid angle
                s, ph = math.sqrt(u), 2 * math.pi * v
                f = b.f(wo, V((s * math.cos(ph), s * math.sin(ph), side * math.sqrt(1 - u))))
                for k in range(3):
                    tot[k] += float(f[k])
            tot = [x * math.pi / (n * n) for x in tot]
            ctx.check(max(tot) <= 1.02, 'energy', '%s: reflects %r' % (tag, tot))
            smooth = t < 1.2 and (m[0] in ('lamb', 'oren') or max(m[-1][1:]) <= 12)
            rep = [float(x) for x in b.rho_hd(wo, grid_)]
            ctx.check(all(-1e-9 <= x <= 1.02 for x in rep), 'reported-energy', '%s: reports %r' % (tag, rep))
            if smooth:
                ctx.check(all(abs(x - y) <= .02 for x, y in zip(tot, rep)), 'reflectance', '%s: quadrature %r, reported %r' % (tag, tot, rep))
            sc = [float(x) for x in ScaledBDF(b, sp(SC)).rho_hd(wo, grid_)]
            ctx.close(sc, [x * s for x, s in zip(rep, SC)], 'scaled-reflectance', tag, tol=1e-9)
            tr = [float(x) for x in BRDF2BTDF(b).rho_hd(wo, grid_)]
            ctx.close(tr, rep, 'mirrored-reflectance', tag, tol=1e-9)
            ctx.state(case['m'], 'energy', case['th'], side, a)
    if case['th'] == 0:
        s1 = [((i + .5) / n, (i * 7 % n + .5) / n) for i in range(n)]
        s2 = [((i * 5 % n + .5) / n, (i * 11 % n + .5) / n) for i in range(n)]
        hh = [float(x) for x in b.rho_hh(n, s1, s2)]
        ctx.check(all(x == x and -1e-9 <= x for x in hh), 'reported-energy', '%r: overall %r' % (m, hh))
        ctx.close([float(x) for x in ScaledBDF(b, sp(SC)).rho_hh(n, s1, s2)], [x * s for x, s in zip(hh, SC)], 'scaled-reflectance', '%r overall' % (m,), tol=1e-9)
        ctx.close([float(x) for x in BRDF2BTDF(b).rho_hh(n, s1, s2)], hh, 'mirrored-reflectance', '%r overall' % (m,), tol=1e-9)
        if m[0] == 'lamb':
            ctx.close(hh, list(m[1]), 'overall', repr(m), tol=1e-9)
        else:
            # the estimate over the given pairs, summed from values and densities
            want = [0.] * 3
            import pytracer.montecarlo as mcx
            for x, y in zip(s1, s2):
                wo = mcx.uniform_sample_hemisphere(*x)
                pdf, wi, f = b.sample_f(wo, *y)
                if pdf > 0:
                    for k in range(3):
                        want[k] += float(f[k]) * abs(float(wi.z)) * float(wo.z) * 2 * math.pi / pdf / math.pi / n
            ctx.close(hh, want, 'overall', repr(m), tol=1e-9)
