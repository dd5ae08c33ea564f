"""U01: scalar helpers against exact integer arithmetic."""
from fractions import Fraction as Fr
import numbers
from mc.pt import *
import pytracer.utility as util

RULE = ('every integer up to a bound and every integer within 2 of a power of two up to 2^40 for the power-of-two helpers, every lattice real n/8 and its '
        'neighbouring doubles for the roundings, every (value, low, high) triple of an alphabet for clamping of Python and numpy scalars, '
        'arrays and spectra; each input is a state')
ASSUME = ['a value exactly half-way between integers may round either way; a power of two is nearest in the logarithmic sense']


def CASES(tier):
    top = 4096 if tier == 'quick' else 1 << 18
    cs = [dict(k='pow', a=a, b=min(a + 512, top + 1)) for a in range(0, top + 1, 512)]
    cs += [dict(k='bigpow', e=e) for e in range(8, 41)]
    n = 8 if tier == 'quick' else 64
    cs += [dict(k='round', a=a) for a in range(-n, n)]
    cs += [dict(k='biground', e=e) for e in range(3, 50, 1 if tier != 'quick' else 4)]
    vals = [-3., -1., -.5, 0., .25, 1., 2., 7.5]
    cs += [dict(k='clip', lo=a, hi=b) for a in vals for b in vals + [INF] if a <= b]
    cs += [dict(k='lerp', a=a, b=b) for a in vals for b in vals]
    return cs


CHUNK = 2


def pows(x, ctx):
    for X in (x, np.int64(x)):
        want = x > 0 and bin(x).count('1') == 1
        ctx.check(bool(util.is_pow_2(X)) == want, 'is-pow2', 'is_pow_2(%d)' % x, got=util.is_pow_2(X))
        if x > 0:
            up = 1 << (x - 1).bit_length()
            g = util.next_pow_2(X)
            ctx.check(isinstance(g, numbers.Integral) and g == up, 'next-pow2', 'next_pow_2(%d) = %r' % (x, g))
            g = util.round_pow_2(X)
            f = x.bit_length() - 1
            want = 1 << (f + 1 if x * x > (1 << (2 * f + 1)) else f)
            ctx.check(isinstance(g, numbers.Integral) and g == want, 'round-pow2', 'round_pow_2(%d) = %r' % (x, g))
    ctx.state('p', x)


def rounds(x, ctx):
    fx = Fr(x)
    fl = fx.numerator // fx.denominator
    ce = -((-fx.numerator) // fx.denominator)
    for X in (x, np.float64(x)):
        g = util.ftoi(X)
        ctx.check(isinstance(g, numbers.Integral) and g == fl, 'floor', 'ftoi(%r) = %r' % (x, g))
        g = util.ctoi(X)
        ctx.check(isinstance(g, numbers.Integral) and g == ce, 'ceil', 'ctoi(%r) = %r' % (x, g))
        g = util.rtoi(X)
        ctx.check(isinstance(g, numbers.Integral) and abs(Fr(int(g)) - fx) <= Fr(1, 2), 'nearest', 'rtoi(%r) = %r' % (x, g))
    ctx.state('r', x)


def RUN(case, ctx):
    k = case['k']
    ctx.outcome(k)
    ctx.trace()
    ctx.sample(case)
    if k == 'pow':
        for x in range(case['a'], case['b']):
            pows(x, ctx)
    elif k == 'bigpow':
        for d in range(-2, 3):
            pows((1 << case['e']) + d, ctx)
        pows(3 << case['e'], ctx)
        pows(int(math.isqrt(1 << (2 * case['e'] + 1))), ctx)
        pows(int(math.isqrt(1 << (2 * case['e'] + 1))) + 1, ctx)
    elif k == 'round':
        for j in range(8):
            x = case['a'] + j / 8.
            rounds(x, ctx)
            if x:
                rounds(x * (1 + 2 ** -52), ctx)
                rounds(x * (1 - 2 ** -53), ctx)
    elif k == 'biground':
        for s in (1, -1):
            for d in (-1., -.5, 0., .5, 1.):
                rounds(s * (2. ** case['e'] + d), ctx)
    elif k == 'lerp':
        a, b = case['a'], case['b']
        ctx.check(util.lerp(0., a, b) == a and util.lerp(1., a, b) == b, 'lerp-ends', (a, b))
        for t in (-.5, .25, .5, .75, 2.):
            ctx.close(util.lerp(t, a, b), a + t * (b - a), 'lerp', (t, a, b), tol=1e-12)
        A, B = np.array([a, b, 1.]), np.array([b, a, -2.])
        ka, kb = list(A), list(B)
        g = util.ufunc_lerp(.25, A, B)
        ctx.close(g, [x + .25 * (y - x) for x, y in zip(ka, kb)], 'ulerp', (a, b), tol=1e-12)
        ctx.check(list(util.ufunc_lerp(0., A, B)) == ka and list(util.ufunc_lerp(1., A, B)) == kb, 'ulerp-ends', (a, b))
        ctx.check(list(A) == ka and list(B) == kb, 'lerp-mutates', (a, b))
        T = np.array([0., .5, 1.])
        ctx.close(util.ufunc_lerp(T, a, b), [a, (a + b) / 2, b], 'ulerp-array', (a, b), tol=1e-12)
        ctx.state('l', a, b)
    elif k == 'clip':
        lo, hi = case['lo'], case['hi']

        def ref(x, lo=lo, hi=hi):
            return lo if x < lo else hi if x > hi else x
        xs = [-7., -3., -1., -.5, -0., 0., .125, .25, 1., 1.5, 2., 7.5, 8., 1e9]
        for x in xs:
            for X in (x, np.float64(x)):
                g = util.clip(X, lo, hi)
                ctx.check(isinstance(g, float) and g == ref(x), 'clip', 'clip(%r,%r,%r) = %r' % (x, lo, hi, g))
            if lo == int(lo) and x == int(x) and (hi == INF or hi == int(hi)):
                h = hi if hi == INF else int(hi)
                g = util.clip(int(x), int(lo), h)
                ctx.check(isinstance(g, numbers.Integral) and g == ref(x), 'clip-int', 'clip(%d,%r,%r) = %r' % (x, lo, h, g), type=type(g))
            ctx.state('c', lo, hi, x)
        if lo == 0. and hi == INF:
            for x in xs:
                ctx.check(util.clip(x) == ref(x), 'clip-default', x)
        A = np.array(xs)
        g = util.clip(A, lo, hi)
        ctx.check(isinstance(g, np.ndarray) and g.shape == A.shape and [float(v) for v in g] == [ref(x) for x in xs],
                  'clip-array', 'clip(array,%r,%r) = %r' % (lo, hi, g))
        ctx.check([float(v) for v in A] == xs, 'clip-mutates', (lo, hi))
        A2 = A[:12].reshape(3, 4)
        g = util.clip(A2, lo, hi)
        ctx.check(isinstance(g, np.ndarray) and g.shape == (3, 4) and [float(v) for v in g.ravel()] == [ref(x) for x in xs[:12]],
                  'clip-array', 'clip(2d array,%r,%r)' % (lo, hi))
        for i in range(0, len(xs) - 3, 3):
            s = pytracer.Spectrum.from_rgb(xs[i:i + 3])
            keep = [float(v) for v in s.c]
            g = util.clip(s, lo, hi)
            ctx.check(isinstance(g, pytracer.Spectrum) and [float(v) for v in g.c] == [ref(x) for x in keep], 'clip-spectrum',
                      'clip(%r,%r,%r)' % (keep, lo, hi))
            ctx.check([float(v) for v in s.c] == keep, 'clip-mutates', (lo, hi))
