"""B02: surface scattering containers against a set-based model."""
import itertools
from mc.pt import *
from pytracer import Spectrum
from pytracer.reflection import *
from pytracer.reflection.bsdf import BSDF, BSDFSample, BSDFSampleOffset
from pytracer.reflection.fresnel import FresnelDielectric, FresnelFullReflect
from pytracer.geometry import DifferentialGeometry

RULE = ('every multiset of up to three lobes from a menu of eight (stubs and real lobes of every kind) x frame (shading normal equal to, tilted from and opposite to the geometric normal) x kind masks x direction pairs '
        '(same side, different sides, sides on which the two normals disagree) x random-number triples; all 32 kind masks against all 32 kinds for the set operations; states are (lobes, frame, mask, directions)')
ASSUME = ['stub lobes return values, directions and densities computed by this check']

R, T, D, G, S = 1, 2, 4, 8, 16
ALL = 31


class Stub(BDF):
    """distinct value and density per stub, direction by mirrored or flipped cosine-free formula"""
    def __init__(self, kind, k):
        super().__init__(kind)
        self.k = k

    def val(self, o, i):
        return [self.k + .1 * o[0] + .2 * i[1] + .5, self.k * (1.1 + o[2] * i[2] / 4), self.k + .3 * i[0] * o[1] + .4]

    def f(self, wo, wi):
        return Spectrum.from_rgb(self.val(L(wo), L(wi)))

    def dens(self, o, i):
        return .1 * self.k + .05 + .02 * i[2] + .01 * o[0]

    def pdf(self, wo, wi):
        return self.dens(L(wo), L(wi))

    def sample_f(self, wo, u1, u2):
        wi = self.dirn(L(wo), u1, u2)
        return [self.dens(L(wo), wi), V(wi), self.f(wo, V(wi))]

    def dirn(self, o, u1, u2):
        s = (1 if o[2] > 0 else -1) * (1 if self.type.v & R else -1)
        return unit([u1 - .4 + .1 * self.k, u2 - .6, s * (.3 + .1 * self.k)])


def menu():
    sp = lambda *a: Spectrum.from_rgb(list(a))
    return [
        ('dr', R | D, lambda: Stub(R | D, 1.)),
        ('gr', R | G, lambda: Stub(R | G, 2.)),
        ('dt', T | D, lambda: Stub(T | D, 3.)),
        ('gt', T | G, lambda: Stub(T | G, 4.)),
        ('lamb', R | D, lambda: Lambertian(sp(.5, .6, .7))),
        ('mir', R | S, lambda: SpecularReflection(sp(.9, .8, .7), FresnelFullReflect())),
        ('ref', T | S, lambda: SpecularTransmission(sp(.3, .6, .9), 1., 1.5)),
        ('micro', R | G, lambda: Microfacet(sp(.4, .5, .6), FresnelDielectric(1., 1.4), Blinn(6.))),
    ]


MENU = menu()
SETS = [c for n in (0, 1, 2, 3) for c in itertools.combinations_with_replacement(range(8), n)]
# containers holding many lobes
SETS += [(0, 1, 2, 3, 4, 5, 6, 7, 0, 1), tuple(range(8))[::-1], (4, 0) * 6, (2, 3, 1) * 3 + (0,) * 8]
FRAMES = [
    # dpdu, dpdv, geometric normal
    ((1., 0., 0.), (0., 1., 0.), (0., 0., 1.)),
    ((2., 1., 0.), (-.5, 1., .25), None),
    ((1., .2, .3), (0., 1., -.4), (.5, .1, .8)),
    ((0., 0., 2.), (0., 3., 0.), (-1., .3, .1)),
    ((1., 0., 0.), (0., 1., 0.), (0., 0., -1.)),
]
MASKS = [ALL, R | D | G | S, T | D | G | S, R | D, R | T | D | G, R | T | S, R | G, T | G | S, D, 0, T | D | S | G | R & ~D]


def CASES(tier):
    cs = [dict(k='kinds'), dict(k='numbers')]
    for fr in range(len(FRAMES)):
        cs.append(dict(k='frame', fr=fr))
    for i in range(len(SETS)):
        frs = [i % 5] if tier == 'quick' else range(5)
        for fr in frs:
            cs.append(dict(k='set', i=i, fr=fr, tier=tier))
    return cs


def RUN(case, ctx):
    globals()['run_' + case['k']](case, ctx)
    ctx.outcome(case['k'])
    ctx.trace()
    ctx.sample(case)


def num(x):
    return int(x.v if isinstance(x, BDFType) else x)


def run_kinds(case, ctx):
    names = dict(REFLECTION=R, TRANSMISSION=T, DIFFUSE=D, GLOSSY=G, SPECULAR=S, ALL_TYPES=D | G | S, ALL_REFLECTION=R | D | G | S, ALL_TRANSMISSION=T | D | G | S, ALL=ALL)
    for n, v in names.items():
        ctx.check(num(getattr(BDFType, n)) == v, 'names', n)
    for a in range(32):
        x = BDFType(a)
        ctx.check(num(BDFType(x)) == a and num(x) == a, 'copy', str(a))
        ctx.check(bool(x) == (a != 0), 'truth', 'BDFType(%d) counts as %r' % (a, bool(x)))
        ctx.check(num(~x) & ALL == ALL & ~a, 'complement', str(a))
        for b in range(32):
            for y in (b, BDFType(b)):
                ctx.check(num(x | y) == a | b and num(x & y) == a & b and num(x ^ y) == a ^ b, 'set-operations', '%d %d' % (a, b))
                st = Stub(a, 1.)
                ctx.check(bool(st.match_flag(y)) == (a & b == a), 'match', 'lobe %d mask %d: %r' % (a, b, st.match_flag(y)))
                ctx.check(num(x) == a, 'operand-changed', '%d %d' % (a, b))
            ctx.state('kinds', a, b)


def frame(fr, eta=1.):
    u, v, g = FRAMES[fr]
    dg = DifferentialGeometry(Pt((.1, .2, .3)), V(u), V(v), Nm((0., 0., 0.)), Nm((0., 0., 0.)), 0., 0., None)
    n = unit(cross(u, v))
    g = unit(g) if g else n
    return BSDF(dg, Nm(g), eta), (unit(u), cross(n, unit(u)), n), g


DIRS = [unit(d) for d in ((.2, .3, 1.), (-.5, .4, .7), (.9, -.2, .3), (.1, .2, -1.), (-.6, -.3, -.5), (.8, .5, -.25), (-.95, .1, .2), (0., 0., 1.))]
US = [(.1, .2, 0.), (.6, .9, .34), (.3, .5, .49), (.5, .5, .5), (.75, .25, .67), (.99, .01, .99), (.2, .7, 1.)]


def local(F, w):
    return [dot(w, a) for a in F]


def world(F, v):
    return add(add(mul(F[0], v[0]), mul(F[1], v[1])), mul(F[2], v[2]))


class Rec(object):
    def __init__(self):
        self.n1, self.n2 = [], []

    def add_1d(self, n):
        self.n1.append(n)
        return len(self.n1) - 1

    def add_2d(self, n):
        self.n2.append(n)
        return len(self.n2) - 1


def run_numbers(case, ctx):
    for ns in itertools.product((1, 2, 3, 5), repeat=3):
        r = Rec()
        # something else asked first, so that the two positions differ
        r.add_1d(9)
        offs = [BSDFSampleOffset(n, r) for n in ns]
        ctx.check(r.n1 == [9] + list(ns) and r.n2 == list(ns), 'requested', '%r: %r %r' % (ns, r.n1, r.n2))
        r.oneD = [[.9] * 9] + [[10. * i + k for k in range(n)] for i, n in enumerate(ns)]
        r.twoD = [[[100. * i + k, 200. * i + k + .5] for k in range(n)] for i, n in enumerate(ns)]
        for i, o in enumerate(offs):
            ctx.check(int(o.nSamples) == ns[i], 'count', repr(ns))
            for k in range(ns[i]):
                s = BSDFSample.from_sample(r, o, k)
                ctx.close(L(s.u_dir) + [float(s.u_com)], [100. * i + k, 200. * i + k + .5, 10. * i + k], 'own-numbers', repr((ns, i, k)))
                ctx.state('numbers', ns, i, k)
    s = BSDFSample(.1, .2, .3)
    ctx.close(L(s.u_dir) + [float(s.u_com)], [.1, .2, .3], 'given-numbers', '')
    seq = iter([.1, .2, .3])
    s = BSDFSample.from_rand(lambda: next(seq))
    ctx.check(sorted(L(s.u_dir) + [float(s.u_com)]) == [.1, .2, .3], 'drawn-numbers', '')


def run_frame(case, ctx):
    b, F, g = frame(case['fr'])
    for d in DIRS:
        loc = L(b.w2l(V(d)))
        ctx.close(loc, local(F, d), 'to-local', '%r %r' % (case, d), tol=1e-9)
        ctx.close(L(b.l2w(V(d))), world(F, d), 'to-world', '%r %r' % (case, d), tol=1e-9)
        ctx.close(L(b.l2w(b.w2l(V(d)))), list(d), 'round-trip', '%r %r' % (case, d), tol=1e-9)
        ctx.state('frame', case['fr'], d)
    ctx.check(b.n_BDF == 0 and b.n_components(ALL) == 0, 'count', 'empty container')
    for d in DIRS[:2]:
        ctx.check(b.pdf(V(d), V(DIRS[2])) == 0., 'empty-density')
        ctx.close(list(b.f(V(d), V(DIRS[2]))), [0.] * 3, 'empty-value')


def lobe_f(name, obj, o, i):
    if isinstance(obj, Stub):
        return obj.val(o, i)
    if name in ('mir', 'ref'):
        return [0.] * 3
    return [float(x) for x in obj.f(V(o), V(i))]


def lobe_pdf(name, obj, o, i):
    if isinstance(obj, Stub):
        return obj.dens(o, i)
    if name in ('mir', 'ref'):
        return 0.
    return float(obj.pdf(V(o), V(i)))


def run_set(case, ctx):
    ids = SETS[case['i']]
    b, F, g = frame(case['fr'], 1.3)
    lobes = []
    for k in ids:
        n, kind, mk = MENU[k]
        o = mk()
        if isinstance(o, Stub):
            o.k += .25 * len(lobes)
        lobes.append((n, kind, o))
        b.push_back(o)
    ctx.check(b.n_BDF == len(lobes), 'count', '%r: %r' % (case, b.n_BDF))

    def total(flags, wo, wi):
        side = R if dot(wo, g) * dot(wi, g) > 0 else T
        lo, li = local(F, wo), local(F, wi)
        out = [0.] * 3
        for n, kind, o in lobes:
            if kind & flags == kind and kind & side:
                out = add(out, lobe_f(n, o, lo, li))
        return out

    for mi, m in enumerate(MASKS):
        match = [x for x in lobes if x[1] & m == x[1]]
        masks = [m, BDFType(m)]
        tag0 = '%s frame %d mask %d' % ('+'.join(x[0] for x in lobes), case['fr'], m)
        ctx.check(b.n_components(masks[mi % 2]) == len(match), 'count-matching', '%s: %r' % (tag0, b.n_components(m)))
        for i, wo in enumerate(DIRS):
            if case['tier'] == 'quick' and (i + mi + case['i']) % 2:
                continue
            lo = local(F, wo)
            for j, wi in enumerate(DIRS):
                if i == j or (case['tier'] == 'quick' and (i + j + case['i']) % 3):
                    continue
                tag = '%s wo=%r wi=%r' % (tag0, wo, wi)
                fl = masks[(i + j) % 2]
                ctx.close([float(x) for x in b.f(V(wo), V(wi), fl)], total(m, wo, wi), 'value', tag, tol=1e-9)
                p = sum(lobe_pdf(n, o, lo, local(F, wi)) for n, _, o in match) / len(match) if match else 0.
                ctx.close(float(b.pdf(V(wo), V(wi), fl)), p, 'density', tag, tol=1e-9)
                if m == ALL:
                    ctx.close([float(x) for x in b.f(V(wo), V(wi))], total(m, wo, wi), 'value', tag, tol=1e-9)
                    ctx.close(float(b.pdf(V(wo), V(wi))), p, 'density', tag, tol=1e-9)
                ctx.state(case['i'], case['fr'], m, i, j)
            for u1, u2, uc in US:
                tag = '%s wo=%r u=%r' % (tag0, wo, (u1, u2, uc))
                fl = masks[(i + int(10 * u1)) % 2]
                pdf, wi, kind, f = b.sample_f(V(wo), BSDFSample(u1, u2, uc), fl)
                if not match:
                    ctx.check(pdf == 0. and [float(x) for x in f] == [0.] * 3, 'nothing-to-sample', '%s: %r' % (tag, (pdf, f)))
                    continue
                n, k, o = match[min(int(uc * len(match)), len(match) - 1)]
                ctx.check(num(kind) == k, 'sampled-kind', '%s: %r, want lobe %s' % (tag, kind, n))
                p0, w0, f0 = o.sample_f(V(lo), u1, u2)
                if p0 == 0.:
                    ctx.check(pdf == 0. and [float(x) for x in f] == [0.] * 3, 'no-sample', '%s: %r %r' % (tag, pdf, f))
                    continue
                ctx.require(wi is not None, 'no-direction', tag)
                wl = L(w0)
                ww = world(F, wl)
                ctx.close(L(wi), ww, 'sampled-direction', tag, tol=1e-8)
                # the sampled lobe's own density is the one it reported
                if k & S:
                    ctx.close(float(pdf), float(p0) / len(match), 'specular-density', tag, tol=1e-9)
                    ctx.close([float(x) for x in f], [float(x) for x in f0], 'specular-value', tag, tol=1e-9)
                else:
                    p = (float(p0) + sum(lobe_pdf(a, q, lo, wl) for a, _, q in match if q is not o)) / len(match)
                    ctx.close(float(pdf), p, 'sampled-density', tag, tol=1e-8)
                    if abs(dot(ww, g)) > 1e-9:
                        ctx.close([float(x) for x in f], total(m, wo, ww), 'sampled-value', tag, tol=1e-8)
                    if dot(wl, lo) and k & R and wl[2] * lo[2] > 0 or isinstance(o, Stub):
                        ctx.close(float(pdf), float(b.pdf(V(wo), wi, fl)), 'density-afterwards', tag, tol=1e-8)
                        ctx.close([float(x) for x in f], [float(x) for x in b.f(V(wo), wi, fl)], 'value-afterwards', tag, tol=1e-8)
                ctx.state(case['i'], case['fr'], m, i, u1, uc)
    # reported reflectance: sum over the matching lobes, each asked in its own frame
    if lobes and len(lobes) < 3:
        wo = DIRS[1]
        for m in (ALL, R | D | G | S, R | D):
            seq = [.5]

            def rng(*a):
                return np.full(a, .5) if a else .5
            got = [float(x) for x in b.rho_hd(V(wo), m, 3, rng)]
            want = [0.] * 3
            grid_ = [((i + .5) / 3, (j + .5) / 3) for i in range(3) for j in range(3)]
            for n, k, o in lobes:
                if k & m == k:
                    want = add(want, [float(x) for x in o.rho_hd(V(local(F, wo)), grid_)])
            ctx.close(got, want, 'reflectance', '%s mask %d' % ('+'.join(x[0] for x in lobes), m), tol=1e-6)
            got = [float(x) for x in b.rho_hh(m, 3, rng)]
            want = [0.] * 3
            for n, k, o in lobes:
                if k & m == k:
                    want = add(want, [float(x) for x in o.rho_hh(9, grid_, grid_)])
            ctx.close(got, want, 'overall-reflectance', '%s mask %d' % ('+'.join(x[0] for x in lobes), m), tol=1e-6)
