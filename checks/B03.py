"""B03: Fresnel terms and perfect mirrors / refraction against the laws of optics."""
from mc.pt import *
from pytracer import Spectrum
from pytracer.reflection import *
from pytracer.reflection.fresnel import FresnelConductor, FresnelDielectric, FresnelFullReflect

RULE = ('every ordered pair of refraction indices x every incidence angle of a grid (normal, grazing, just before and behind the critical angle) x both sides x azimuths; every pair of conductor constants x angle; '
        'mirror and refraction lobes with several colours; states are (indices, side, angle, azimuth)')
ASSUME = ['incidence within 1e-6 of the critical angle is left out']
ETAS = (1., 1.33, 1.5, 2.4, .7)
ETAC = (.2, .9, 1.5, 3.)
KC = (0., .5, 2., 4.)
DEG = (0., 1e-3, 5., 20., 33., 45., 60., 75., 85., 89., 89.99)
AZ = (0., .7, 2.4, 3.9, 5.5)
COL = [(1., 1., 1.), (.8, .5, .2), (0., .3, 1.)]


def CASES(tier):
    cs = [dict(k='diel', i=i, j=j, n=1 if tier == 'quick' else 8) for i in ETAS for j in ETAS]
    cs += [dict(k='cond', i=i, j=j) for i in ETAC for j in KC]
    cs.append(dict(k='full'))
    return cs


def RUN(case, ctx):
    globals()['run_' + case['k']](case, ctx)
    ctx.outcome(case['k'])
    ctx.trace()
    ctx.sample(case)


def diel(a, b, c):
    """unpolarised reflectance coming from index a at cosine c; None = total"""
    s = a / b * math.sqrt(max(0., 1 - c * c))
    if abs(s - 1) < 1e-6 and a != b:
        return 'edge', None
    if s >= 1 and a != b:
        return 1., None
    t = math.sqrt(max(0., 1 - s * s))
    if c == 0.:
        return (1. if a != b else 'edge'), t
    # s- and p-amplitudes by angles (Fresnel's sine and tangent laws)
    ti, tt = math.acos(min(1., c)), math.asin(min(1., s))
    if ti < 1e-4:
        return ((a - b) / (a + b)) ** 2, t
    rs, rp = math.sin(ti - tt) / math.sin(ti + tt), math.tan(ti - tt) / math.tan(ti + tt)
    return .5 * (rs * rs + rp * rp), t


def angles(a, b, n):
    ds = list(DEG)
    if a > b:
        cr = math.degrees(math.asin(b / a))
        ds += [cr - .01, cr + .01, cr - 2, cr + 2]
    elif b > a:
        cr = math.degrees(math.asin(a / b))
        ds += [cr - .01, cr + .01]
    if n > 1:
        ds += [90. * (k + .5) / (30 * n) for k in range(30 * n)]
    return ds


def vec(x):
    x = np.ravel(x)
    return [float(v) for v in x] if len(x) > 1 else [float(x[0])] * 3


def run_diel(case, ctx):
    a, b = case['i'], case['j']
    F = FresnelDielectric(a, b)
    for deg in angles(a, b, case['n']):
        for side in (1, -1):
            c = math.cos(math.radians(deg))
            s = math.sin(math.radians(deg))
            n1, n2 = (a, b) if side > 0 else (b, a)
            R, ct = diel(n1, n2, c)
            tag0 = 'indices %r to %r at %r degrees from side %d' % (a, b, deg, side)
            if R == 'edge':
                ctx.skip()
                continue
            got = vec(F(side * c))
            ctx.check(all(0. <= g <= 1. + 1e-12 for g in got), 'range', '%s: %r' % (tag0, got))
            ctx.close(got, [R] * 3, 'dielectric', tag0, tol=1e-6)
            if ct is not None and ct > 1e-3:
                # the same interface met along the refracted path
                ctx.close(vec(F(-side * ct)), got, 'exchange', tag0, tol=1e-6)
            if ct is not None and c > 0:
                sp = lambda x: Spectrum.from_rgb([x] * 3)
                ctx.close(vec(fr_diel(c, ct, sp(n1), sp(n2))), [R] * 3, 'formula', tag0, tol=1e-6)
            for az in AZ:
                o = (s * math.cos(az), s * math.sin(az), side * c)
                for col in COL:
                    tag = '%s azimuth %r colour %r' % (tag0, az, col)
                    sp = Spectrum.from_rgb(list(col))
                    m = SpecularReflection(sp, F)
                    wo = V(o)
                    for u in ((.1, .9), (.7, .3)):
                        pdf, wi, f = m.sample_f(wo, *u)
                        ctx.check(pdf == 1., 'mirror-density', '%s: %r' % (tag, pdf))
                        ctx.close(L(wi), [-o[0], -o[1], o[2]], 'mirror-direction', tag, tol=1e-12)
                        if c > 1e-9:
                            ctx.close([x * c for x in vec(f)], [R * x for x in col], 'mirror-value', tag, tol=1e-6)
                    ctx.check(vec(m.f(wo, wi)) == [0.] * 3 and m.pdf(wo, wi) == 0., 'mirror-delta', tag)
                    q = SpecularTransmission(sp, a, b)
                    pdf, wi, f = q.sample_f(wo, .3, .8)
                    if ct is None:
                        ctx.check(pdf == 0. and (f is None or vec(f) == [0.] * 3), 'total-reflection', '%s: %r %r' % (tag, pdf, f))
                    else:
                        r = n1 / n2
                        want = [-r * o[0], -r * o[1], -side * ct]
                        ctx.check(pdf == 1., 'refraction-density', '%s: %r' % (tag, pdf))
                        if ctx.require(wi is not None, 'refraction-direction', tag):
                            ctx.close(L(wi), want, 'refraction-direction', tag, tol=1e-7)
                            ctx.close(norm(L(wi)), 1., 'refraction-unit', tag, tol=1e-7)
                        if ct > 1e-3:
                            ctx.close([x * ct for x in vec(f)], [(1 - R) * x * r * r for x in col], 'refraction-value', tag, tol=1e-6)
                        ctx.check(vec(q.f(wo, wi)) == [0.] * 3 and q.pdf(wo, wi) == 0., 'refraction-delta', tag)
                    ctx.check(L(wo) == list(o), 'argument-changed', tag)
                    ctx.check(vec(sp) == list(col), 'colour-changed', tag)
                ctx.state(a, b, deg, side, az)
    ctx.check(int(m.type.v) == 17 and int(q.type.v) == 18, 'kind', '%r %r' % (m.type, q.type))


def run_cond(case, ctx):
    e, k = case['i'], case['j']
    F = FresnelConductor(Spectrum.from_rgb([e, e + .5, e]), Spectrum.from_rgb([k, k, k + 1.]))
    last = None
    for deg in DEG + tuple(x + .5 for x in range(0, 90, 7)):
        for side in (1, -1):
            c = math.cos(math.radians(deg))
            tag = 'conductor %r %r at %r side %d' % (e, k, deg, side)
            got = vec(F(side * c))
            want = []
            for n, q in ((e, k), (e + .5, k), (e, k + 1.)):
                m2 = n * n + q * q
                p = (m2 * c * c - 2 * n * c + 1) / (m2 * c * c + 2 * n * c + 1)
                s = (m2 - 2 * n * c + c * c) / (m2 + 2 * n * c + c * c)
                want.append((p + s) / 2)
            ctx.close(got, want, 'conductor', tag, tol=1e-9)
            ctx.check(all(-1e-12 <= x <= 1 + 1e-12 for x in got), 'range', '%s: %r' % (tag, got))
            if deg == 0.:
                ctx.close(got[0], ((e - 1) ** 2 + k * k) / ((e + 1) ** 2 + k * k), 'normal-incidence', tag, tol=1e-9)
            mir = SpecularReflection(Spectrum.from_rgb([.5, 1., .25]), F)
            s_ = math.sin(math.radians(deg))
            pdf, wi, f = mir.sample_f(V((s_, 0., side * c)), .5, .5)
            ctx.close([x * c for x in vec(f)], [a * b for a, b in zip(want, (.5, 1., .25))], 'mirror-value', tag, tol=1e-9)
            ctx.close(L(wi), [-s_, 0., side * c], 'mirror-direction', tag, tol=1e-12)
            ctx.state('cond', e, k, deg, side)


def run_full(case, ctx):
    F = FresnelFullReflect()
    for c in (0., .3, 1., -1., -.2):
        ctx.close(vec(F(c)), [1.] * 3, 'full', repr(c))
        ctx.state('full', c)
    # helpers
    for t in DEG:
        for az in AZ:
            for side in (1, -1):
                s, c = math.sin(math.radians(t)), side * math.cos(math.radians(t))
                w = V((s * math.cos(az), s * math.sin(az), c))
                from pytracer.reflection.utility import sin_theta
                ctx.close([float(cos_theta(w)), float(abs_cos_theta(w)), float(sin_theta_sq(w)), float(sin_theta(w))], [c, abs(c), s * s, s], 'angles', '%r %r' % (t, az), tol=1e-7)
                if s > 1e-2:
                    ctx.close([float(cos_phi(w)), float(sin_phi(w))], [math.cos(az), math.sin(az)], 'azimuth', '%r %r' % (t, az), tol=1e-7)
                ctx.state('angles', t, az, side)
