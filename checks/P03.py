"""P03: tabulated distributions against an exact rational inverse CDF."""
from fractions import Fraction as Fr
from mc.pt import *
from pytracer.montecarlo import Distribution1D, Distribution2D

RULE = ('every weight vector up to length 4 (5 thorough) over {0,1,2,5}, scaled copies and unequal longer ones, as list and array; all 2x2 and 2x3 (3x3 over a '
        'smaller alphabet) matrices; random numbers k/n, all segment boundaries and their neighbours, 0 and the largest number below 1; '
        'distinct states are (table, random number)')
ASSUME = ['within 1e-12 of a segment boundary either neighbouring non-empty entry may be returned']
AL = [0., 1., 2., 5.]
TOP = 1. - 2. ** -53


def CASES(tier):
    n = 4 if tier == 'quick' else 5
    vs = [list(v) for k in range(1, n + 1) for v in itertools.product(AL, repeat=k) if any(v)]
    vs += [[1e-3 * x for x in v] for v in ([0, 3, 1], [7, 0, 0, 2], [1, 1, 1])] + [[100., 0., .01, 40., 0., 0., 3.], [0., 0., 0., 1., 0.], [.1] * 9]
    cs = [dict(k=1, v=vs[i:i + 12]) for i in range(0, len(vs), 12)]
    al = [0., 1., 3.]
    ms = [[list(m[:2]), list(m[2:])] for m in itertools.product(al, repeat=4) if any(m)]
    ms += [[list(m[:3]), list(m[3:])] for m in itertools.product([0., 1., 3.] if tier != 'quick' else [0., 2.], repeat=6) if any(m)]
    ms += [[list(m[:2]), list(m[2:4]), list(m[4:])] for m in itertools.product([0., 1., 3.] if tier != 'quick' else [0., 3.], repeat=6) if any(m)]
    ms += [[[2., 0., 5., 1.]], [[1.], [0.], [4.]], [[0., 0., 0.], [0., 7., 0.], [0., 0., 0.]]]
    cs += [dict(k=2, m=ms[i:i + 4]) for i in range(0, len(ms), 4)]
    return cs


CHUNK = 2


class Model(object):
    def __init__(self, w):
        self.w = [Fr(x) for x in w]
        self.n, self.tot = len(w), sum(self.w)
        self.cdf = [Fr(0)]
        for x in self.w:
            self.cdf.append(self.cdf[-1] + x / self.tot)

    def ok(self, u):
        """entries that may answer u, exact answer first"""
        e = Fr(1, 10 ** 12)
        u = Fr(u)
        return [i for i in range(self.n) if self.w[i] > 0 and self.cdf[i] - e <= u <= self.cdf[i + 1] + e]


def us(models, n):
    s = {k / float(n) for k in range(n)} | {TOP}
    for m in models:
        for c in m.cdf:
            f = float(c)
            s |= {f, f + 1e-10, f - 1e-10, f + 1e-15, f - 1e-15}
    return sorted(u for u in s if 0. <= u < 1.)


def one(v, kind, ctx):
    m = Model(v)
    src = np.array(v) if kind == 'array' else list(v)
    d = Distribution1D(src)
    tag = '%s %r' % (kind, v)
    last = None
    for u in us([m], 32):
        ok = m.ok(u)
        x, p = d.sample_cont(u)
        i = [i for i in ok if float(Fr(i, m.n)) - 1e-12 <= x <= float(Fr(i + 1, m.n)) + 1e-12]
        if not ctx.check(i, 'cont-entry', '%s: sample_cont(%r) = %r, allowed entries %r' % (tag, u, (x, p), ok)):
            continue
        i = [j for j in i if abs(p - float(m.w[j] * m.n / m.tot)) <= 1e-9 * (1 + p)]
        ctx.check(i, 'cont-pdf', '%s: sample_cont(%r) = %r' % (tag, u, (x, p)))
        if i:
            j = i[0]
            want = (float((Fr(u) - m.cdf[j]) / (m.cdf[j + 1] - m.cdf[j])) + j) / m.n
            ctx.check(abs(x - want) < 1e-8 or len(ok) > 1, 'cont-position', '%s: sample_cont(%r) = %r want %r' % (tag, u, x, want))
        if last is not None:
            ctx.check(x >= last - 1e-12, 'monotone', '%s at %r' % (tag, u))
        last = x
        k, q = d.sample_dis(u)
        ctx.check(k in ok and k == int(k), 'dis-entry', '%s: sample_dis(%r) = %r, allowed %r' % (tag, u, (k, q), ok))
        if 0 <= k < m.n:
            ctx.close(q, float(m.w[int(k)] / m.tot), 'dis-prob', '%s: sample_dis(%r)' % (tag, u), tol=1e-9)
        ctx.state(v, u)
    for u in (0., .3):
        a = d.sample_cont(u), d.sample_dis(u)
        ctx.check(a == (d.sample_cont(u), d.sample_dis(u)), 'repeat', tag)
    ctx.check(list(src) == v, 'table-modified', tag)
    for i in range(len(v)):         # writing to the caller's table later changes nothing
        src[i] = 77.
    ctx.check(a == (d.sample_cont(.3), d.sample_dis(.3)), 'table-shared', tag)


def two(rows, ctx):
    tag = repr(rows)
    src = np.array(rows)
    d = Distribution2D(src)
    nv, nu = len(rows), len(rows[0])
    tot = sum(map(sum, rows))
    marg = Model([sum(r) / nu for r in rows])
    conds = [Model(r) if any(r) else None for r in rows]
    for u1 in us([marg], 8):
        for u0 in us([c for c in conds if c], 8):
            (u, v), p = d.sample_cont(u0, u1)
            if not ctx.check(0. <= u <= 1. and 0. <= v <= 1. and p == p, 'unit-square', '%s: sample(%r,%r) = %r' % (tag, u0, u1, ((u, v), p))):
                continue
            good = False
            for i in marg.ok(u1):
                if not float(i) / nv - 1e-12 <= v <= float(i + 1) / nv + 1e-12:
                    continue
                wv = (float((Fr(u1) - marg.cdf[i]) / (marg.cdf[i + 1] - marg.cdf[i])) + i) / nv
                for j in conds[i].ok(u0):
                    c = conds[i]
                    wu = (float((Fr(u0) - c.cdf[j]) / (c.cdf[j + 1] - c.cdf[j])) + j) / nu
                    if abs(u - wu) < 1e-8 and abs(v - wv) < 1e-8 and abs(p - rows[i][j] * nu * nv / tot) <= 1e-8 * (1 + p):
                        good = True
            ctx.check(good, 'sample2d', '%s: sample(%r,%r) = %r' % (tag, u0, u1, ((u, v), p)))
            fu, fv = (u * nu) % 1., (v * nv) % 1.
            if min(fu, 1 - fu, fv, 1 - fv) > 1e-9:
                ctx.close(d.pdf(u, v), p, 'pdf-of-sample', '%s: pdf(%r,%r)' % (tag, u, v), tol=1e-9)
            ctx.state(tag, u0, u1)
    for i in range(nv):
        for j in range(nu):
            for f in (.01, .5, .99):
                ctx.close(d.pdf((j + f) / nu, (i + 1 - f) / nv), rows[i][j] * nu * nv / tot, 'pdf', '%s cell %d,%d' % (tag, i, j), tol=1e-9)
    for u, v in ((0., 0.), (1., 1.), (0., 1.), (1., 0.)):
        i, j = (nv - 1 if v else 0), (nu - 1 if u else 0)
        ctx.close(d.pdf(u, v), rows[i][j] * nu * nv / tot, 'pdf-corner', '%s corner %r' % (tag, (u, v)), tol=1e-9)
    ctx.check(src.tolist() == rows, 'table-modified', tag)


def RUN(case, ctx):
    ctx.outcome(case['k'])
    if case['k'] == 1:
        for v in case['v']:
            for kind in ('list', 'array'):
                one(v, kind, ctx)
                ctx.trace()
    else:
        for m in case['m']:
            two(m, ctx)
            ctx.trace()
    ctx.sample(case)
