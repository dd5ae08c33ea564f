"""M01: materials against the scattering functions their textures prescribe."""
import itertools
from mc.pt import *
from pytracer import Spectrum
from pytracer.reflection import *
from pytracer.reflection.bsdf import BSDF, BSDFSample
from pytracer.reflection.bdf.orennayar import OrenNayar
from pytracer.reflection.fresnel import FresnelConductor, FresnelDielectric, FresnelFullReflect
from pytracer.geometry import DifferentialGeometry
from pytracer.material import *

RULE = ('every material kind x every combination of texture values from an alphabet (black, partial, full, out of range; four roughnesses, three indices, four opacities) x surface frames x direction pairs and kind masks, '
        'compared with a scattering function assembled by this check from the prescribed lobes; all pairs and two-level nestings of mixtures x blend colours; bump: every frame (both handednesses, curved, with and without footprint) x displacement '
        'that is constant, sloped, or a function of position, compared with the normal of the displaced surface; states are (material, textures, frame) and (frame, displacement)')
ASSUME = ['lobes themselves are decided by B01-B04', 'bump displacements are affine in what they depend on, so one-sided differences are exact',
          'mixtures of materials with the same (unbumped) frame']
B, P, F, O, Q = (0., 0., 0.), (0., .5, .2), (1., 1., 1.), (2., -1., .5), (-.5, 0., -.1)
COL = (B, P, F, O, Q)
OP = (F, (.25, .5, 1.), B, (2., .5, .5))
ROUGH = (.02, .3, 1., 4.)
ETA = (1.5, 1., 1.2)
NAMES = ('matte', 'plastic', 'mirror', 'metal', 'glass', 'uber', 'sub')
FRAMES = ('same', 'tilt', 'opposed', 'skewed')


class Tex(object):
    """returns its own stored object, like a constant texture; or a value that depends on the place"""
    def __init__(self, v, place=False):
        self.v0 = v
        self.place = place
        self.v = Spectrum.from_rgb(list(v)) if isinstance(v, tuple) else v

    def at(self, u):
        w = 1. + u if self.place else 1.
        return tuple(x * w for x in self.v0) if isinstance(self.v0, tuple) else self.v0 * w

    def __call__(self, dg):
        if not self.place:
            return self.v
        x = self.at(float(dg.u))
        return Spectrum.from_rgb(list(x)) if isinstance(x, tuple) else x

    def intact(self):
        return L(self.v) == list(self.v0) if isinstance(self.v0, tuple) else self.v == self.v0


def specs(tier):
    out = []
    for c in COL:
        for s in (0., -0., 20., 90., 200., -5.):
            out.append(('matte', c, s))
        out.append(('mirror', c))
    for a in COL:
        for b in COL:
            for r in ROUGH:
                out.append(('plastic', a, b, r))
            for e in ETA:
                out.append(('glass', a, b, e))
            out.append(('sub', a, b, 1.3))
    for r in ROUGH:
        for e in ((.2, 1.1, 2.), F):
            for k in ((3.9, 2.5, .3), B):
                out.append(('metal', e, k, r))
    cs = (B, P, O)
    for a in cs:
        for b in cs:
            for c in cs:
                for d in cs:
                    for o in OP:
                        for e, r in ((1.5, .3), (1.2, 1.)):
                            out.append(('uber', a, b, c, d, r, o, e))
    return out


def build(s, place=False, bump=None):
    t = [Tex(x, place) for x in s[1:]]
    k = s[0]
    if k == 'matte':
        m = MatteMaterial(t[0], t[1], bump)
    elif k == 'mirror':
        m = MirrorMaterial(t[0], bump)
    elif k == 'plastic':
        m = PlasticMaterial(t[0], t[1], t[2], bump)
    elif k == 'metal':
        m = MetalMaterial(t[0], t[1], t[2], bump)
    elif k == 'glass':
        m = GlassMaterial(t[0], t[1], t[2], bump)
    elif k == 'sub':
        m = SubsurfaceMaterial(.5, t[0], t[1], Tex((.1, .2, .3), place), t[2], bump)
    else:
        m = UberMaterial(*(t + [bump]))
    return m, t


def clipc(c):
    return [max(0., x) for x in c]


def lobes(s, t, u):
    """the lobes prescribed by the texture values at u"""
    v = [x.at(u) for x in t]
    sp = lambda c: Spectrum.from_rgb(clipc(c))
    on = lambda c: any(x > 0 for x in clipc(c))
    k = s[0]
    out = []
    if k == 'matte':
        if on(v[0]):
            sg = min(90., max(0., v[1]))
            out.append(Lambertian(sp(v[0])) if sg == 0 else OrenNayar(sp(v[0]), sg))
    elif k == 'mirror':
        if on(v[0]):
            out.append(SpecularReflection(sp(v[0]), FresnelFullReflect()))
    elif k == 'plastic':
        if on(v[0]):
            out.append(Lambertian(sp(v[0])))
        if on(v[1]):
            out.append(Microfacet(sp(v[1]), FresnelDielectric(1., 1.5), Blinn(1. / v[2])))
    elif k == 'metal':
        out.append(Microfacet(sp(F), FresnelConductor(Spectrum.from_rgb(list(v[0])), Spectrum.from_rgb(list(v[1]))), Blinn(1. / v[2])))
    elif k == 'glass':
        if on(v[0]):
            out.append(SpecularReflection(sp(v[0]), FresnelDielectric(1., v[2])))
        if on(v[1]):
            out.append(SpecularTransmission(sp(v[1]), 1., v[2]))
    elif k == 'sub':
        if on(v[0]):
            out.append(SpecularReflection(sp(v[0]), FresnelDielectric(1., v[2])))
    else:
        kd, ks, kr, kt, r, o, e = v
        o = clipc(o)
        part = lambda c: [x * y for x, y in zip(o, clipc(c))]
        if on([1. - x for x in o]):
            out.append(SpecularTransmission(sp([1. - x for x in o]), 1., 1.))
        if on(part(kd)):
            out.append(Lambertian(sp(part(kd))))
        if on(part(ks)):
            out.append(Microfacet(sp(part(ks)), FresnelDielectric(1., e), Blinn(1. / r)))
        if on(part(kr)):
            out.append(SpecularReflection(sp(part(kr)), FresnelDielectric(1., e)))
        if on(part(kt)):
            out.append(SpecularTransmission(sp(part(kt)), 1., e))
    return out


class Sh(object):
    def __init__(self, ro, sw):
        self.ro, self.transform_swaps_handedness = ro, sw


def frame(name):
    u, shape = .25, Sh(False, False)
    g = DifferentialGeometry(Pt((.3, .2, .1)), V((1., 0., 0.)), V((0., 1., 0.)), Nm((0., 0., 0.)), Nm((0., 0., 0.)), u, .5, shape)
    if name == 'same':
        return g, g
    if name == 'tilt':
        a = (V((1., 0., .3)), V((0., 1., -.2)))
    elif name == 'opposed':
        a = (V((0., 2., .1)), V((1., 0., 0.)))
        shape = Sh(True, False)
    else:
        a = (V((.5, .1, 0.)), V((.4, 1.5, .2)))
    s = DifferentialGeometry(Pt((.3, .2, .1)), a[0], a[1], Nm((.1, 0., 0.)), Nm((0., .1, 0.)), u, .5, shape)
    g.u = .7                                    # textures are asked at the shading record
    return g, s


def snap(dg):
    return [L(dg.p), L(dg.dpdu), L(dg.dpdv), L(dg.dndu), L(dg.dndv), L(dg.nn), float(dg.u), float(dg.v), float(dg.dudx), float(dg.dvdx), float(dg.dudy), float(dg.dvdy), L(dg.dpdx), L(dg.dpdy), id(dg.shape)]


DIRS = [unit(x) for x in ((0., 0., 1.), (.5, .2, .9), (-.7, .4, .5), (.3, -.9, .2), (.1, .2, -1.), (-.6, -.5, -.6))]
MASKS = (31, 1 | 4, 1 | 8, 1 | 16, 2 | 16, 1 | 4 | 8, 1 | 2 | 16)


def compare(ctx, tag, got, ref, sub=1):
    for m in MASKS:
        fl = BDFType(m)
        n = int(got.n_components(fl))
        ctx.check(n == ref.n_components(fl), 'components', '%s: %d lobes of kinds %d, want %d' % (tag, n, m, ref.n_components(fl)))
    for i, o in enumerate(DIRS):
        for j, d in enumerate(DIRS):
            if (i + j) % sub:
                continue
            ctx.close(got.f(V(o), V(d)), L(ref.f(V(o), V(d))), 'value', '%s wo=%r wi=%r' % (tag, o, d))
            if j == (i + 1) % 6:
                ctx.close(float(got.pdf(V(o), V(d), BDFType(31))), float(ref.pdf(V(o), V(d), BDFType(31))), 'density', '%s wo=%r wi=%r' % (tag, o, d))
        for m in (1 | 16, 2 | 16, 1 | 4, 1 | 8):
            for uc in (.1, .6, .9) if m & 16 and ref.n_components(BDFType(m)) > 1 else (.4,):
                a = got.sample_f(V(o), BSDFSample(.3, .6, uc), BDFType(m))
                b = ref.sample_f(V(o), BSDFSample(.3, .6, uc), BDFType(m))
                if not ctx.check((a[1] is None) == (b[1] is None), 'sampled', '%s wo=%r kinds %d' % (tag, o, m)):
                    continue
                ctx.close(float(a[0]), float(b[0]), 'sampled-density', '%s wo=%r kinds %d' % (tag, o, m))
                if b[1] is not None:
                    ctx.close(L(a[1]), L(b[1]), 'sampled-direction', '%s wo=%r kinds %d' % (tag, o, m))
                    ctx.close([float(x) for x in a[3]], [float(x) for x in b[3]], 'sampled-value', '%s wo=%r kinds %d' % (tag, o, m))
    ctx.close(L(got.l2w(V((.2, .3, .5)))), L(ref.l2w(V((.2, .3, .5)))), 'frame', tag)


def reference(ls, dgs, ng, eta=1.):
    r = BSDF(dgs.copy(), ng, eta)
    for b in ls:
        r.push_back(b)
    return r


MIX = [('matte', P, 0.), ('matte', F, 30.), ('mirror', O), ('glass', F, P, 1.5), ('uber', P, P, P, P, .5, (.25, .5, 1.), 1.3), ('plastic', P, F, .2), ('mirror', B)]
SCALE = (B, F, P, O, (.3, .3, .3))


def CASES(tier):
    cs = []
    s = specs(tier)
    step = 30
    for f in range(4):
        for i in range(0, len(s), step):
            cs.append(dict(k='lobes', frame=f, lo=i, hi=min(len(s), i + step), sub=3 if tier == 'quick' else 1))
    if tier == 'quick':
        cs = [c for i, c in enumerate(cs) if c['lo'] // step % 4 == c['frame']] + [c for c in cs if c['lo'] == 0]
        for c in cs:
            c['lo'], c['hi'] = int(c['lo']), int(c['hi'])
    for i in range(len(MIX)):
        for j in range(len(MIX)):
            cs.append(dict(k='mix', a=i, b=j, deep=0))
            if tier != 'quick' or (i + j) % 3 == 0:
                cs.append(dict(k='mix', a=i, b=j, deep=1))
    for ro in (0, 1):
        for sw in (0, 1):
            for geom in range(len(GEOM)):
                cs.append(dict(k='bump', ro=ro, sw=sw, geom=geom))
    cs.append(dict(k='bump', ro=-1, sw=0, geom=0))
    for m in range(len(NAMES)):
        cs.append(dict(k='bumped', m=m))
    return cs


def same_things(ctx, tag, dg, before, ts):
    ctx.check([snap(d) for d in dg] == before, 'record-changed', tag)
    ctx.check(all(t.intact() for t in ts), 'texture-changed', tag)


def run_lobes(case, ctx):
    sp = specs('')
    g, s = frame(FRAMES[case['frame']])
    for i in range(case['lo'], case['hi']):
        spec = sp[i]
        place = bool((i + case['frame']) % 2)
        mat, t = build(spec, place)
        tag = '%s place=%r on %r' % (FRAMES[case['frame']], place, spec)
        before = [snap(g), snap(s)]
        for again in range(2):
            got = mat.get_bsdf(g, s)
            eta = t[2].at(.25) if spec[0] == 'glass' else 1.
            ref = reference(lobes(spec, t, .25), s, g.nn, eta)
            ctx.close(float(got.eta), eta, 'index', tag)
            if not again:
                compare(ctx, tag, got, ref, case['sub'])
            else:
                ctx.close(got.f(V(DIRS[1]), V(DIRS[2])), L(ref.f(V(DIRS[1]), V(DIRS[2]))), 'second-evaluation', tag)
                ctx.check(int(got.n_components(BDFType(31))) == ref.n_components(BDFType(31)), 'second-evaluation', tag)
        same_things(ctx, tag, (g, s), before, t)
        b = mat.get_bssrdf(g, s)
        if spec[0] == 'sub':
            ctx.close(L(b.sigma_a), [.5 * x for x in t[1].at(.25)], 'sigma_a', tag)
            ctx.close(L(b.sigma_prime_s), [.5 * x * (1.25 if place else 1.) for x in (.1, .2, .3)], 'sigma_prime_s', tag)
            ctx.close(float(b.eta), t[2].at(.25), 'bssrdf-index', tag)
        else:
            ctx.check(b is None, 'bssrdf', tag)
        ctx.state(case['frame'], spec)
        ctx.outcome('%s/%d' % (spec[0], ref.n_components(BDFType(31))))
    ctx.trace()
    ctx.sample(case)


def run_mix(case, ctx):
    g, s = frame('tilt')
    a, ta = build(MIX[case['a']])
    b, tb = build(MIX[case['b']])
    third, tc = build(MIX[1])
    if case['a'] == case['b']:
        b, tb = a, ta                           # the same material on both sides
    for c in SCALE:
        sc = Tex(c, True)
        m = MixMaterial(a, b, sc)
        s1 = clipc(sc.at(.25))
        s2 = clipc([1. - x for x in s1])
        w = lambda l, s: ScaledBDF(l, Spectrum.from_rgb(list(s)))
        ls = [w(l, s1) for l in lobes(MIX[case['a']], ta, .25)] + [w(l, s2) for l in lobes(MIX[case['b']], tb, .25)]
        if case['deep']:
            sd = Tex((.2, .5, .9))
            m = MixMaterial(third, m, sd)
            ls = [w(l, (.2, .5, .9)) for l in lobes(MIX[1], tc, .25)] + [w(l, (.8, .5, .1)) for l in ls]
        tag = 'mix %r %r by %r deep=%d' % (MIX[case['a']], MIX[case['b']], c, case['deep'])
        before = [snap(g), snap(s)]
        for again in range(2):
            got = m.get_bsdf(g, s)
            ref = reference(ls, s, g.nn)
            for i, o in enumerate(DIRS):
                for j, d in enumerate(DIRS):
                    if (i + j) % 2 == again:
                        ctx.close(got.f(V(o), V(d)), L(ref.f(V(o), V(d))), 'value', '%s wo=%r wi=%r' % (tag, o, d))
                # the blend of the specular parts, whatever their order and number
                for mask, pick in ((1 | 16, 0), (2 | 16, 0)):
                    tot = [{}, {}]
                    for side, x in enumerate((got, ref)):
                        n = int(x.n_components(BDFType(mask)))
                        for q in range(n):
                            p, wi, kind, f = x.sample_f(V(o), BSDFSample(.3, .6, (q + .5) / n), BDFType(mask))
                            if wi is None:
                                continue
                            key = tuple(round(y, 6) + 0. for y in L(wi))
                            e = tot[side].setdefault(key, [0., 0., 0.])
                            for z in range(3):
                                e[z] += float(f[z])
                    for t in tot:
                        for k in [k for k in t if max(map(abs, t[k])) < 1e-9]:
                            del t[k]
                    ok = set(tot[0]) == set(tot[1]) and all(abs(x - y) < 1e-6 * (1 + abs(y)) for k in tot[1] for x, y in zip(tot[0][k], tot[1][k]))
                    ctx.check(ok, 'specular-blend', '%s wo=%r: %r want %r' % (tag, o, tot[0], tot[1]))
            # members on their own stay what they were
            one = a.get_bsdf(g, s)
            ref1 = reference(lobes(MIX[case['a']], ta, .25), s, g.nn)
            ctx.close(one.f(V(DIRS[0]), V(DIRS[2])), L(ref1.f(V(DIRS[0]), V(DIRS[2]))), 'member-changed', tag)
            ctx.check(int(one.n_components(BDFType(31))) == ref1.n_components(BDFType(31)), 'member-changed', tag)
        same_things(ctx, tag, (g, s), before, ta + tb + tc + [sc])
        ctx.state(case['a'], case['b'], c, case['deep'])
        ctx.outcome('mix/%d' % len(ls))
    ctx.trace()
    ctx.sample(case)


#        dpdu, dpdv, dndu, dndv, footprint (dudx, dudy, dvdx, dvdy), geometric normal
GEOM = [((1., 0., 0.), (0., 1., 0.), (0., 0., 0.), (0., 0., 0.), (0., 0., 0., 0.), (0., 0., 1.)),
        ((1., 0., 0.), (0., 1., 0.), (0., 0., 0.), (0., 0., 0.), (.02, -.04, .3, .1), (0., 0., -1.)),
        ((2., 0., 1.), (0., 1., .5), (.3, 0., 0.), (0., .2, .1), (.2, 0., 0., -.1), (0., 0., 1.)),
        ((1., .5, 0.), (-.2, 0., 1.), (0., .4, .1), (.1, 0., .2), (0., 0., .2, 0.), (.1, -1., 0.)),
        ((1., 0., 0.), (0., 1., 0.), (.5, 0., 0.), (0., .5, 0.), (0., -.2, 0., 0.), (.1, 0., 1.)),
        ((1., 0., 0.), (0., 1., 0.), (.5, 0., 0.), (0., .5, 0.), (0., 0., .2, 0.), (.1, 0., 1.)),
        ((1., 0., 0.), (0., 1., 0.), (0., 0., 0.), (0., 0., 0.), (0., 0., .1, .1), (0., 0., 1.)),
        ((1., 0., 0.), (0., 1., 0.), (0., 0., 0.), (0., 0., 0.), (.1, .1, .05, .15), (0., 0., 1.))]
DISP = [(0., 0., 0.), (.7, 0., 0.), (0., .5, 0.), (0., 0., .4), (.2, -.6, .3), (-.3, 2., 2.), (.1, -1., 0.)]


class Disp(object):
    def __init__(self, kind, c):
        self.kind, self.c = kind, c
        self.seen = []

    def __call__(self, dg):
        a, b, c = self.c
        self.seen.append(norm(L(dg.nn)))
        if self.kind == 'uv':
            return a + b * float(dg.u) + c * float(dg.v)
        return a + b * float(dg.p.x) + c * float(dg.p.y) + .3 * float(dg.p.z)


def record(case):
    du, dv, nu, nv, fp, ng = GEOM[case['geom']]
    shape = None if case['ro'] < 0 else Sh(bool(case['ro']), bool(case['sw']))
    s = DifferentialGeometry(Pt((.3, .2, .1)), V(du), V(dv), Nm(nu), Nm(nv), .25, .5, shape)
    s.dudx, s.dudy, s.dvdx, s.dvdy = fp
    g = DifferentialGeometry(Pt((.3, .2, .1)), V(du), V(dv), Nm(nu), Nm(nv), .25, .5, shape)
    g.nn = Nm(unit(ng))
    flip = shape is not None and shape.ro != shape.transform_swaps_handedness
    return g, s, flip


def bumped_normal(case, kind, c):
    du, dv, nu, nv, fp, ng = GEOM[case['geom']]
    n = unit(cross(du, dv))
    if case['ro'] > 0 and not case['sw'] or case['ro'] == 0 and case['sw']:
        n = mul(n, -1.)
    p, u, v = (.3, .2, .1), .25, .5
    if kind == 'uv':
        d, d_u, d_v = c[0] + c[1] * u + c[2] * v, c[1], c[2]
    else:
        k = (c[1], c[2], .3)
        d, d_u, d_v = c[0] + dot(k, p), dot(k, du), dot(k, dv)
    pu = add(add(du, mul(n, d_u)), mul(nu, d))
    pv = add(add(dv, mul(n, d_v)), mul(nv, d))
    m = cross(pu, pv)
    return pu, pv, m


def run_bump(case, ctx):
    for kind in ('uv', 'p'):
        for c in DISP:
            g, s, flip = record(case)
            before = [snap(g), snap(s)]
            tag = 'geom %d ro=%d sw=%d %s %r' % (case['geom'], case['ro'], case['sw'], kind, c)
            t = Disp(kind, c)
            pu, pv, m = bumped_normal(case, kind, c)
            if norm(m) < 1e-3:
                ctx.skip()
                continue
            r = Material.bump(t, g, s)
            n = L(r.nn)
            want = unit(m)
            ng = L(g.nn)
            if abs(dot(want, ng)) < 1e-9:
                ctx.skip()
                continue
            if dot(want, ng) < 0:
                want = mul(want, -1.)
            ctx.close(n, want, 'bumped-normal', tag)
            ctx.close(L(r.dpdu), pu, 'bumped-dpdu', tag)
            ctx.close(L(r.dpdv), pv, 'bumped-dpdv', tag)
            ctx.close([float(r.u), float(r.v)] + L(r.p), [.25, .5, .3, .2, .1], 'bumped-place', tag)
            ctx.check([snap(g), snap(s)] == before, 'record-changed', tag)
            ctx.check(all(abs(x - 1) < 1e-6 for x in t.seen), 'shifted-normal', '%s %r' % (tag, t.seen))
            ctx.state('bump', case['geom'], case['ro'], case['sw'], kind, c)
            ctx.outcome('bump/%s/%s' % (kind, 'flat' if c[1:] == (0., 0.) else 'slope'))
    ctx.trace()
    ctx.sample(case)


def run_bumped(case, ctx):
    name = NAMES[case['m']]
    all_ = [s for s in specs('') if s[0] == name]
    for spec in all_[::max(1, len(all_) // 6)]:
        for geom in (1, 2, 3):
            for kind, c in (('uv', DISP[4]), ('p', DISP[2]), ('uv', DISP[0])):
                cs = dict(geom=geom, ro=0, sw=0)
                g, s, flip = record(cs)
                tag = 'bumped %r geom %d %s %r' % (spec, geom, kind, c)
                before = [snap(g), snap(s)]
                mat, t = build(spec, True, Disp(kind, c))
                got = mat.get_bsdf(g, s)
                pu, pv, m = bumped_normal(cs, kind, c)
                n = unit(m)
                n = n if dot(n, L(g.nn)) > 0 else mul(n, -1.)
                d = s.copy()
                d.dpdu, d.dpdv, d.nn = V(pu), V(pv), Nm(n)
                ref = reference(lobes(spec, t, .25), d, g.nn, t[2].at(.25) if name == 'glass' else 1.)
                compare(ctx, tag, got, ref, 3)
                same_things(ctx, tag, (g, s), before, t)
                ctx.state('bumped', spec, geom, kind, c)
    ctx.outcome('bumped/' + name)
    ctx.trace()
    ctx.sample(case)


def RUN(case, ctx):
    globals()['run_' + case['k']](case, ctx)
