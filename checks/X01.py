"""X01: colour arithmetic, conversion and resampling."""
import itertools
from mc.pt import *
from pytracer.spectral.spectrum import Spectrum, RGBSpectrum, SampledSpectrum, SpectrumType, xyz2rgb, rgb2xyz
import pytracer.data.spectral as D
SampledSpectrum.init()

RULE = ('arithmetic: all ordered pairs of colours over a component alphabet x every operator (and scalar forms on both sides), histories of two assignments through an alias, against plain lists; '
        'resampling: every table of up to three (thorough four) points over a wavelength and value alphabet in every input order, whole and band by band, against exact integration of the piecewise-linear function; '
        'conversion: all colours over an alphabet, every ordering of the components, both directions; states are operand pairs, tables and colours')
ASSUME = ['blackness is only specified for non-negative colours away from the 1e-5 threshold', 'conversion matrices are inverse to each other to 1e-4', 'pow, sqrt and exp within 1e-9']
LV = (0., .5, 2., -1.)
LAM = (330., 400., 455., 460., 555., 700., 790.)
VAL = (0., 1., 3.)


def CASES(tier):
    cs = []
    for i in range(64):
        cs.append(dict(k='arith', a=i, step=3 if tier == 'quick' else 1))
    cs.append(dict(k='unary'))
    cs.append(dict(k='alias'))
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for lam in itertools.combinations(LAM, n):
            cs.append(dict(k='table', lam=list(lam), full=tier != 'quick' or n < 3))
    for lam in itertools.combinations((1., 2., 3.5, 4.), 2):
        cs.append(dict(k='band', lam=list(lam)))
    for lam in itertools.combinations((1., 2., 3.5, 4., 6.), 3):
        cs.append(dict(k='band', lam=list(lam)))
    cs.append(dict(k='band', lam=[2.]))
    cs.append(dict(k='band', lam=[1., 2., 3., 4.]))
    for i in range(6 if tier == 'quick' else 12):
        cs.append(dict(k='conv', i=i, n=6 if tier == 'quick' else 12))
    return cs


def make(c):
    return RGBSpectrum.from_rgb(list(c))


def run_arith(case, ctx):
    cols = list(itertools.product(LV, repeat=3))
    a = cols[case['a']]
    for b in cols[case['a'] % case['step']::case['step']]:
        for big in (0, 1):
            if big:
                x, y = SampledSpectrum(list(a) * 10), SampledSpectrum(list(b) * 10)
                la, lb = list(a) * 10, list(b) * 10
            else:
                x, y = make(a), make(b)
                la, lb = list(a), list(b)
            tag = '%r %r%s' % (a, b, ' sampled' if big else '')
            ops = [('+', lambda: x + y, [p + q for p, q in zip(la, lb)]),
                   ('-', lambda: x - y, [p - q for p, q in zip(la, lb)]),
                   ('*', lambda: x * y, [p * q for p, q in zip(la, lb)]),
                   ('neg', lambda: -x, [-p for p in la]),
                   ('*s', lambda: x * 2.5, [2.5 * p for p in la]), ('s*', lambda: 2.5 * x, [2.5 * p for p in la]),
                   ('/s', lambda: x / 4., [p / 4. for p in la]), ('*0', lambda: x * 0., [0. for p in la]),
                   ('1-', lambda: 1. - x, [1. - p for p in la]), ('*i', lambda: x * 3, [3. * p for p in la]),
                   ('lerp', lambda: x.lerp(.25, y), [.75 * p + .25 * q for p, q in zip(la, lb)]),
                   ('lerp0', lambda: x.lerp(0., y), la), ('lerp1', lambda: x.lerp(1., y), lb)]
            if all(lb):
                ops += [('/', lambda: x / y, [p / q for p, q in zip(la, lb)]), ('s/', lambda: 3. / y, [3. / q for q in lb])]
            for name, fn, want in ops:
                r = fn()
                if ctx.close(r, want, 'op ' + name, tag):
                    ctx.check(isinstance(r, type(x)), 'type ' + name, '%s: %s' % (tag, type(r)))
                    r[0] = 77.                       # the result is nobody's operand
                    ctx.check(L(x) == la and L(y) == lb, 'operand-changed ' + name, tag)
            ctx.check(bool(x == y) == (la == lb), 'eq', tag)
            ctx.check(bool(x != y) == (la != lb), 'ne', tag)
            for name, fn, want in (('+=', '__iadd__', [p + q for p, q in zip(la, lb)]), ('-=', '__isub__', [p - q for p, q in zip(la, lb)]), ('*=', '__imul__', [p * q for p, q in zip(la, lb)])):
                z = x.copy()
                w = getattr(z, fn)(y)
                ctx.close(w, want, 'assign ' + name, tag)
                ctx.check(L(x) == la and L(y) == lb, 'operand-changed ' + name, tag)
            yw = [.212671, .715160, .072169]
            if not big:
                ctx.close(float((x + y * 2.).y()), dot(yw, [p + 2 * q for p, q in zip(la, lb)]), 'luminance-linear', tag)
            else:
                ctx.close(float((x + y * 2.).y()), float(x.y()) + 2 * float(y.y()), 'luminance-linear', tag)
                wt = 300. / (float(D.CIE_Y_INTEGRAL) * 30)
                ctx.close(float(x.y()), wt * sum(p * q for p, q in zip(la, L(SampledSpectrum.Y))), 'luminance', tag)
        ctx.state('pair', a, b)
    ctx.outcome('arith')
    ctx.trace()
    ctx.sample(case)


def run_unary(case, ctx):
    for v in (0., 3e-5, 2e-4, 8e-4, 5e-3, .02):
        for k in range(3):
            c = [0.] * 3
            c[k] = v
            ctx.check(bool(make(c).is_black()) == (v == 0.), 'black', 'component %d of %g' % (k, v))
            x = SampledSpectrum([0.] * 30)
            x[7 * k] = v
            ctx.check(bool(x.is_black()) == (v == 0.), 'black', 'band %d of %g' % (7 * k, v))
    vals = (0., 1e-9, .25, 1., 4., -2., INF)
    for c in itertools.product(vals, repeat=3):
        for big in (0, 1):
            x = SampledSpectrum(list(c) * 10) if big else make(c)
            lc = list(c) * (10 if big else 1)
            tag = '%r big=%d' % (c, big)
            if min(c) >= 0 and not any(0 < v < 1e-4 for v in c):
                ctx.check(bool(x.is_black()) == (max(c) == 0.), 'black', tag)
            ctx.close(x.clip(), [max(0., v) for v in lc], 'clip', tag)
            ctx.close(x.clip(.1, 2.), [min(2., max(.1, v)) for v in lc], 'clip-range', tag)
            ctx.check(not bool(x.has_nans()), 'nan', tag)
            if min(c) >= 0:
                ctx.close(x.sqrt(), [math.sqrt(v) for v in lc], 'sqrt', tag, tol=1e-9)
                ctx.close(x.pow(2.5), [v ** 2.5 for v in lc], 'pow', tag, tol=1e-9)
            if max(c) < INF:
                ctx.close(x.exp(), [math.exp(v) for v in lc], 'exp', tag, tol=1e-9)
                ctx.close(x.pow(2), [v * v for v in lc], 'pow2', tag, tol=1e-9)
            for k in range(len(lc)):
                y = x.copy()
                y[k] = float('nan')
                if k in (0, len(lc) - 1):
                    ctx.check(bool(y.has_nans()), 'nan', tag)
            ctx.check(L(x) == lc, 'changed', tag)
            ctx.check(isinstance(x.clip(), type(x)) and isinstance(x.sqrt(), type(x)) and isinstance(x.exp(), type(x)) and isinstance(x.pow(2), type(x)), 'type', tag)
            ctx.check(int(x.n_samples) == len(lc), 'count', tag)
        ctx.state('unary', c)
    ctx.outcome('unary')
    ctx.trace()


def run_alias(case, ctx):
    """every way of making a colour from another object x then writing to one of the two"""
    ways = [('from_rgb list', lambda s: RGBSpectrum.from_rgb(s), list), ('from_rgb array', lambda s: RGBSpectrum.from_rgb(s), np.array), ('from_rgb spectrum', lambda s: RGBSpectrum.from_rgb(s), make),
            ('create list', lambda s: RGBSpectrum.create(s), list), ('create array', lambda s: RGBSpectrum.create(s), np.array), ('create spectrum', lambda s: RGBSpectrum.create(s), make),
            ('from array', lambda s: RGBSpectrum.create_from_array(s), np.array), ('from list', lambda s: RGBSpectrum.create_from_list(s), list),
            ('to_rgb', lambda s: s.to_rgb(), make), ('copy', lambda s: s.copy(), make), ('clip', lambda s: s.clip(), make),
            ('sampled', lambda s: SampledSpectrum(s), list), ('sampled array', lambda s: SampledSpectrum(s), np.array),
            ('sampled create', lambda s: SampledSpectrum.create(s), np.array), ('sampled create list', lambda s: SampledSpectrum.create(s), list)]
    for name, fn, mk in ways:
        for c in itertools.product((0., .5, 2.), repeat=3):
            for first in (0, 1):
                for op in ('set', 'iadd', 'imul'):
                    src = mk(c)
                    new = fn(src)
                    ctx.close(new, c, 'made', '%s %r' % (name, c))
                    objs = (src, new)
                    t = objs[first]
                    if op == 'set' or isinstance(t, list):
                        t[1] = 9.
                    elif op == 'iadd':
                        t += 1.
                    else:
                        t *= 3.
                    ctx.check(L(objs[1 - first]) == list(c), 'aliased', '%s %r %s' % (name, c, op))
                    ctx.state(name, c, first, op)
    for name, fn, mk in ways:            # whole numbers are numbers
        for c in itertools.product((0, 1, 3), repeat=3):
            src = fn(make(c) if mk is make else mk([int(x) for x in c]))
            src *= .5
            src += .25
            ctx.close(src, [.5 * x + .25 for x in c], 'whole-numbers', '%s %r' % (name, c))
    for v in (0, 1, 2):
        for x in (RGBSpectrum(v), Spectrum(v)):
            x *= .5
            x += .25
            ctx.close(x, [.5 * v + .25] * 3, 'whole-numbers', '%r' % v)
    z = SampledSpectrum()
    ctx.close(z, [0.] * 30, 'zero', 'SampledSpectrum()')
    for v in (0., 1., -2., .3):
        ctx.close(RGBSpectrum(v), [v] * 3, 'constant', repr(v))
    ctx.outcome('alias')
    ctx.trace()


def integ(lam, v, a, b):
    """exact integral of the piecewise-linear function through the (sorted) points, constant outside"""
    def f(x):
        if x <= lam[0]:
            return v[0]
        if x >= lam[-1]:
            return v[-1]
        for i in range(len(lam) - 1):
            if lam[i] <= x <= lam[i + 1]:
                return v[i] + (v[i + 1] - v[i]) * (x - lam[i]) / (lam[i + 1] - lam[i])
    xs = sorted(set([a, b] + [x for x in lam if a < x < b]))
    return sum((f(p) + f(q)) / 2 * (q - p) for p, q in zip(xs, xs[1:]))


def band_avgs(lam, v):
    return [integ(lam, v, 400. + 10. * i, 410. + 10. * i) / 10. for i in range(30)]


def run_table(case, ctx):
    lam = case['lam']
    n = len(lam)
    perms = list(itertools.permutations(range(n)))
    if not case['full']:
        perms = [perms[0], perms[-1], perms[2]]
    for v in itertools.product(VAL, repeat=n):
        want = band_avgs(lam, v)
        for k, p in enumerate(perms):
            l2, v2 = [lam[i] for i in p], [v[i] for i in p]
            for arr in (0, 1) if k < 2 else (1,):
                a, b = (np.array(l2), np.array(v2)) if arr else (list(l2), list(v2))
                tag = 'wavelengths %r values %r array=%d' % (l2, v2, arr)
                s = SampledSpectrum.from_sampled(a, b)
                ctx.close(s, want, 'bands', tag)
                ctx.check(list(a) == l2 and list(b) == v2, 'table-changed', tag)
        s3 = RGBSpectrum.from_sampled(list(lam), list(v))
        X = [sum(p * q for p, q in zip(want, L(c))) * 300. / (float(D.CIE_Y_INTEGRAL) * 30) for c in (SampledSpectrum.X, SampledSpectrum.Y, SampledSpectrum.Z)]
        ctx.close(s3, to_rgb(X), 'rgb-of-table', 'wavelengths %r values %r' % (lam, v))
        ctx.check(len(s3) == 3 and isinstance(s3, RGBSpectrum), 'rgb-type', repr(type(s3)))
        if len(set(v)) == 1:
            x = SampledSpectrum.from_sampled(lam, v)
            ctx.close([float(q) for q in x.to_xyz()], [v[0]] * 3, 'achromatic', '%r' % (v,), tol=.012)
            ctx.close(float(x.y()), v[0], 'level', '%r' % (v,), tol=.012)
        ctx.state('table', tuple(lam), v)
    ctx.outcome('table/%d' % n)
    ctx.trace()
    ctx.sample(case)


def run_band(case, ctx):
    lam = case['lam']
    ends = [.5, 1., 1.5, 2., 2.75, 3.5, 3.75, 4., 5., 7.]
    for v in itertools.product(VAL, repeat=len(lam)):
        for i, a in enumerate(ends):
            for b in ends[i + 1:]:
                l2, v2 = list(lam), list(v)
                l3, v3 = np.array(lam), np.array(v)
                want = integ(lam, v, a, b) / (b - a)
                tag = '%r %r over [%r, %r]' % (lam, v, a, b)
                ctx.close(float(SampledSpectrum.average_spectrum_samples(l2, v2, a, b)), want, 'average', tag)
                ctx.close(float(SampledSpectrum.average_spectrum_samples(l3, v3, a, b)), want, 'average', tag)
                ctx.check(l2 == lam and v2 == list(v) and list(l3) == lam and list(v3) == list(v), 'table-changed', tag)
                ctx.state('band', tuple(lam), v, a, b)
    ctx.outcome('band/%d' % len(lam))
    ctx.trace()


MX = [[.412453, .357580, .180423], [.212671, .715160, .072169], [.019334, .119193, .950227]]
MR = [[3.240479, -1.537150, -.498535], [-.969256, 1.875991, .041556], [.055648, -.204043, 1.057311]]


def mv(m, x):
    return [dot(r, x) for r in m]


def to_rgb(x):
    return mv(MR, x)


def run_conv(case, ctx):
    n = case['n']
    lv = [i / float(n - 1) for i in range(n)]
    A = D
    tabs = {}
    for kind in ('Refl', 'Illum'):
        for name in ('White', 'Cyan', 'Magenta', 'Yellow', 'Red', 'Green', 'Blue'):
            lam, v = L(A.RGB2SpectLambda), L(getattr(A, 'RGB%s2Spect%s' % (kind, name)))
            tabs[kind, name] = band_avgs(lam, v)
    for g in lv:
        for b in lv:
            c = (lv[case['i']], g, b)
            s = make(c)
            tag = '%r' % (c,)
            ctx.close([float(x) for x in s.to_xyz()], mv(MX, c), 'to-xyz', tag)
            ctx.close(L(xyz2rgb(rgb2xyz(list(c)))), c, 'round-trip', tag, tol=1e-4)
            ctx.close(RGBSpectrum.from_xyz(s.to_xyz()), c, 'round-trip', tag, tol=1e-4)
            ctx.close(RGBSpectrum.from_xyz(list(c)), to_rgb(c), 'from-xyz', tag)
            ctx.close(float(s.y()), float(s.to_xyz()[1]), 'luminance', tag)
            ctx.check(L(s) == list(c), 'changed', tag)
            for kind, tp, sc in (('Refl', SpectrumType.REFLECTANCE, .94), ('Illum', SpectrumType.ILLUMINANT, .86445)):
                lo = min(range(3), key=lambda i: c[i])
                hi = max(range(3), key=lambda i: c[i])
                m = sorted(c)
                sec, pri = ('Cyan', 'Magenta', 'Yellow')[lo], ('Red', 'Green', 'Blue')[hi]
                if len(set(c)) < 3:          # ties: any consistent choice gives the same
                    pass
                want = [max(0., sc * (m[0] * w + (m[1] - m[0]) * y + (m[2] - m[1]) * x)) for w, y, x in zip(tabs[kind, 'White'], tabs[kind, sec], tabs[kind, pri])]
                src = list(c)
                q = SampledSpectrum.from_rgb(src, tp)
                ctx.close(q, want, 'rgb-to-sampled', '%s %s' % (tag, kind), tol=1e-5)
                ctx.check(src == list(c), 'changed', tag)
                if kind == 'Refl':
                    ctx.close(q.to_rgb(), c, 'sampled-round-trip', tag, tol=.13)
                xyz = mv(MX, c)
                ctx.close(SampledSpectrum.from_xyz(list(xyz), tp), want, 'xyz-to-sampled', tag, tol=1e-3)
            ctx.state('conv', c)
            ctx.outcome('conv/lo%d hi%d' % (lo, hi))
    ctx.trace()
    ctx.sample(case)


def RUN(case, ctx):
    globals()['run_' + case['k']](case, ctx)
