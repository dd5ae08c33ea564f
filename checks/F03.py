"""F03: reconstruction filters return their profile, scalar and array alike."""
from mc.pt import *
from mc.core import isclose
from pytracer.filter import BoxFilter, TriangleFilter, GaussianFilter, MitchellFilter, LanczosSincFilter

RULE = ('every filter kind x half-widths x parameters; every pair of grid offsets spanning one and a half supports is queried alone and in arrays; '
        'distinct states are (filter, offset pair)')
ASSUME = ['the box and the cubic profile are only claimed up to and including the edge of their support']

W = [(.5, .5), (1., 1.), (2., 2.), (1.5, .75), (3., 1.), (.25, 2.)]


def configs():
    out = []
    for w in W:
        out.append(('box', w, ()))
        out.append(('tri', w, ()))
        for a in (.25, 1., 2., 4.):
            out.append(('gauss', w, (a,)))
        for b, c in ((1. / 3, 1. / 3), (1., 0.), (0., .5), (0., 0.), (.5, .25)):
            out.append(('mitchell', w, (b, c)))
        for t in (1., 2., 3., 1.5):
            out.append(('sinc', w, (t,)))
    return out


def make(kind, w, p):
    if kind == 'box':
        return BoxFilter(*w)
    if kind == 'tri':
        return TriangleFilter(*w)
    if kind == 'gauss':
        return GaussianFilter(w[0], w[1], p[0])
    if kind == 'mitchell':
        return MitchellFilter(p[0], p[1], w[0], w[1])
    return LanczosSincFilter(w[0], w[1], p[0])


def sinc(x):
    return 1. if x == 0. else math.sin(math.pi * x) / (math.pi * x)


def prof(kind, w, p, d):
    """one-dimensional profile; None = not claimed"""
    a = abs(d)
    if kind == 'box':
        return 1. if a <= w else None
    if kind == 'tri':
        return max(0., w - a)
    if kind == 'gauss':
        return max(0., math.exp(-p[0] * d * d) - math.exp(-p[0] * w * w))
    x = a / w
    if kind == 'sinc':
        if x > 1.:
            return 0.
        return 1. if x < 1e-5 else sinc(x) * sinc(x * p[0])
    x *= 2.
    if x > 2. + 1e-12:
        return None
    b, c = p
    if x <= 1.:
        return ((12 - 9*b - 6*c) * x**3 + (-18 + 12*b + 6*c) * x * x + 6 - 2*b) / 6.
    return ((-b - 6*c) * x**3 + (6*b + 30*c) * x * x + (-12*b - 48*c) * x + 8*b + 24*c) / 6.


def CASES(tier):
    m = 8 if tier == 'quick' else 24
    return [dict(kind=k, w=list(w), p=list(p), m=m) for k, w, p in configs()]


CHUNK = 2


def RUN(case, ctx):
    kind, (xw, yw), p, m = case['kind'], case['w'], case['p'], case['m']
    f = make(kind, (xw, yw), p)
    tag = '%s %r %r' % (kind, (xw, yw), p)
    ctx.check((float(f.xw), float(f.yw)) == (xw, yw), 'width', tag)
    ctx.check(abs(f.xwInv * xw - 1.) < 1e-12 and abs(f.ywInv * yw - 1.) < 1e-12, 'inverse-width', tag)
    lim = m + m // 2
    xs = [xw * i / m for i in range(-lim, lim + 1)] + [xw * 1e-7, -xw * 1e-7, xw * 3., xw * .123, -xw * .777, xw * .03, -xw * .004, xw * .0003, -xw * .97, xw * .9993]
    ys = [yw * i / m for i in range(-lim, lim + 1)] + [yw * 1e-7, yw * 3., -yw * .431, yw * .02, -yw * .0009, yw * .985]
    px = [prof(kind, xw, p, x) for x in xs]
    py = [prof(kind, yw, p, y) for y in ys]
    tab = {}
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            v = f(x, y)
            tab[i, j] = float(v)
            ctx.state(tag, i, j)
            if px[i] is None or py[j] is None:
                ctx.skip()
                continue
            ctx.close(v, px[i] * py[j], 'profile', '%s at %r' % (tag, (x, y)), tol=1e-9)
    # symmetry in both axes is exact
    for i in range(2 * lim + 1):
        for j in range(2 * lim + 1):
            a, b = tab[i, j], tab[2 * lim - i, j]
            c = tab[i, 2 * lim - j]
            ctx.check(a == b == c, 'symmetry', '%s at %r' % (tag, (xs[i], ys[j])))
    # many at once: equal lengths, one axis fixed, reversed and in different orders
    idx = [(i, j) for i in range(len(xs)) for j in range(len(ys))]
    for pick in (idx, idx[::-1], idx[::7], idx[:1], idx[1::5]):
        ax = np.array([xs[i] for i, _ in pick])
        ay = np.array([ys[j] for _, j in pick])
        bx, by = ax.copy(), ay.copy()
        r = f(ax, ay)
        ctx.check(np.shape(r) == (len(pick),), 'array-shape', '%s: %r' % (tag, np.shape(r)))
        r = np.broadcast_to(r, (len(pick),))
        bad = [k for k in range(len(pick)) if not isclose(float(r[k]), tab[pick[k]], 1e-12)]
        ctx.step(len(pick))
        ctx.check(not bad, 'array-values', '%s: offset %r alone %r, in an array %r' % (
            tag, (ax[bad[0]], ay[bad[0]]) if bad else 0, tab[pick[bad[0]]] if bad else 0, r[bad[0]] if bad else 0))
        ctx.check((ax == bx).all() and (ay == by).all(), 'array-modified', tag)
    # scalar with array (a row of a filter table)
    ax = np.array(xs)
    for j in (0, lim, 2 * lim + 1):
        r = np.broadcast_to(f(ax, ys[j]), ax.shape)
        ctx.check(all(isclose(float(r[i]), tab[i, j], 1e-12) for i in range(len(xs))), 'array-values', '%s row %r' % (tag, ys[j]))
    # later answers
    for i, j in idx[::3]:
        ctx.check(float(f(xs[i], ys[j])) == tab[i, j], 'repeat', '%s at %r' % (tag, (xs[i], ys[j])))
    ctx.check((float(f.xw), float(f.yw)) == (xw, yw), 'width', tag)
    ctx.trace()
    ctx.outcome(kind)
    ctx.sample(case)
