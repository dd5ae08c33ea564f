"""P02: stratification and delivery of sample patterns under an enumerated random source."""
from mc.pt import *
from pytracer.sampler import Sample, StratifiedSampler
import importlib
su = importlib.import_module("pytracer.sampler.utility")

RULE = ('every stratum shape up to the bound x every scripted random source (constant extremes, alternating, ramps) x every shuffle (all permutations up to 4 entries, '
        'identity/reversal/rotation/exchange of the ends above); every sequence of up to 3 array requests by surface and volume integrators (1-d or 2-d, sizes 1..4), driven for three batches; '
        'distinct states are (shape, source, shuffle) and request histories')
ASSUME = ['random numbers lie in [0, 1-1e-9]: one ulp below one may round onto the next stratum border']

TOP = 1. - 1e-9
SRC = ['0', '.5', 'top', 'alt', 'ramp', 'tla']


class Source(object):
    """scripted stand-in for np.random.rand / shuffle"""

    def __init__(self, kind, perm):
        self.kind, self.perm, self.n = kind, perm, 0

    def val(self):
        self.n += 1
        k = self.kind
        if k == '0':
            return 0.
        if k == '.5':
            return .5
        if k == 'top':
            return TOP
        if k == 'alt':
            return (0., TOP)[self.n % 2]
        if k == 'tla':
            return (TOP, 0., .3)[self.n % 3]
        return ((self.n * 7) % 13) / 13.

    def rand(self, *shape):
        if not shape:
            return self.val()
        n = 1
        for s in shape:
            n *= int(s)
        return np.array([self.val() for _ in range(n)]).reshape(shape)

    def order(self, n):
        p = self.perm
        if isinstance(p, str):
            ix = list(range(n))
            if p == 'rev':
                ix = ix[::-1]
            elif p == 'rot':
                ix = ix[1:] + ix[:1]
            elif p == 'swap' and n > 1:
                ix[0], ix[-1] = ix[-1], ix[0]
            return ix
        return [p[i % len(p)] for i in range(n)] if len(p) == n else list(range(n))

    def shuffle(self, a):
        ix = self.order(len(a))
        a[:] = np.array(a)[ix]

    def permutation(self, a):
        a = np.arange(a) if isinstance(a, (int, np.integer)) else np.array(a)
        return a[self.order(len(a))]


class Each(Source):
    """every shuffle on its own: the k-th takes the k-th permutation of the script"""
    def __init__(self, script):
        super().__init__('ramp', 'id')
        self.script, self.calls, self.other, self.sizes = script, 0, False, []

    def order(self, n):
        k = self.calls
        self.calls += 1
        self.sizes.append(n)
        if k < len(self.script) and len(self.script[k]) == n:
            return list(self.script[k])
        self.other = self.other or k < len(self.script)
        return list(range(n))


def fair(fn, n, total, tag, sig, ctx):
    """over all outcomes of all shuffles, every arrangement comes up equally often"""
    src = Each([])
    with patched(src):
        fn(src)
    calls = src.calls
    ways = 1
    for k in src.sizes:
        ways *= math.factorial(k)
    if not 0 < calls or ways > 20000:
        ctx.skip()
        return
    seen = {}
    for script in itertools.product(*[list(itertools.permutations(range(k))) for k in src.sizes]):
        src = Each(script)
        with patched(src):
            r = fn(src)
        if src.other or src.calls != calls:
            ctx.skip()
            return
        seen[r] = seen.get(r, 0) + 1
        ctx.state(sig, n, script)
        ctx.step()
    ctx.check(len(seen) == total and len(set(seen.values())) == 1, sig + '-uneven', '%s: %d of %d arrangements, %r' % (tag, len(seen), total, sorted(seen.items())[:8]))
    ctx.outcome('fair')


class patched(object):
    def __init__(self, src):
        self.src = src

    def __enter__(self):
        self.old = (np.random.rand, np.random.shuffle, np.random.permutation)
        np.random.rand, np.random.shuffle, np.random.permutation = self.src.rand, self.src.shuffle, self.src.permutation

    def __exit__(self, *a):
        np.random.rand, np.random.shuffle, np.random.permutation = self.old


REQ = [('1', 1), ('1', 2), ('1', 4), ('2', 1), ('2', 3), ('2', 4)]


def perms(n):
    if n <= 4:
        return [list(p) for p in itertools.permutations(range(n))]
    return ['id', 'rev', 'rot', 'swap']


def CASES(tier):
    top = 9 if tier == 'quick' else 33
    cs = [dict(k='fn', n=n) for n in range(1, top)]
    g = 4 if tier == 'quick' else 7
    cs += [dict(k='st', x=x, y=y) for x in range(1, g) for y in range(1, g)]
    d = 3
    for k in range(d + 1):
        for seq in itertools.product(range(len(REQ)), repeat=k):
            for cut in range(k + 1):
                if tier == 'quick' and k == 3 and (sum(seq) + cut) % 2:
                    continue
                cs.append(dict(k='req', seq=list(seq), cut=cut))
    return cs


CHUNK = 4


def strata(v, n, tag, sig, ctx):
    v = [float(x) for x in v]
    ctx.check(len(v) == n, sig + '-size', '%s: %d values' % (tag, len(v)))
    ctx.check(all(0. <= x <= 1. for x in v), sig + '-range', '%s: %r' % (tag, v))
    # a value may sit on the upper border of its stratum by rounding: allow 1e-7
    cells = sorted(int(math.floor(x * n + 1e-12)) for x in v)
    ctx.check(cells == list(range(n)), sig + '-strata', '%s: %r fills strata %r' % (tag, v, cells))


def strata2(v, nx, ny, tag, sig, ctx):
    cells = sorted((int(math.floor(a * nx + 1e-12)), int(math.floor(b * ny + 1e-12))) for a, b in v)
    ctx.check(cells == sorted((i, j) for i in range(nx) for j in range(ny)), sig + '-strata', '%s: %r' % (tag, v))


def do_fn(n, ctx):
    for kind in SRC:
        s = Source(kind, 'id')
        tag = 'n=%d source=%s' % (n, kind)
        strata(su.stratified_sample_1d(n, True, s.rand), n, tag, 'strat1', ctx)
        for p in perms(n):
            s = Source(kind, p)
            with patched(s):
                strata(su.latin_hypercube_1d(n, s.rand), n, '%s perm=%r' % (tag, p), 'lhs1', ctx)
                a = su.latin_hypercube_2d(n, s.rand)
            ctx.check(a.shape == (n, 2), 'lhs2-shape', tag)
            strata(a[:, 0], n, '%s perm=%r' % (tag, p), 'lhs2', ctx)
            strata(a[:, 1], n, '%s perm=%r' % (tag, p), 'lhs2', ctx)
            ctx.state('fn', n, kind, p)
    if 1 < n <= 4:
        cell = lambda x: min(n - 1, int(float(x) * n + 1e-9))
        f = math.factorial(n)
        fair(lambda s: tuple(cell(x) for x in su.latin_hypercube_1d(n, s.rand)), n, f, 'n=%d' % n, 'lhs1', ctx)
        fair(lambda s: tuple(sorted((cell(a), cell(b)) for a, b in su.latin_hypercube_2d(n, s.rand))), n, f, 'n=%d' % n, 'lhs2', ctx)
    a = su.stratified_sample_1d(n, False)
    ctx.close(a, [(i + .5) / n for i in range(n)], 'unjittered', 'n=%d' % n, tol=1e-12)
    ctx.trace()


def do_st(nx, ny, ctx):
    for kind in SRC:
        s = Source(kind, 'id')
        a = su.stratified_sample_2d(nx, ny, True, s.rand)
        strata2([tuple(map(float, q)) for q in a], nx, ny, '%dx%d %s' % (nx, ny, kind), 'strat2', ctx)
    a = su.stratified_sample_2d(nx, ny, False)
    ctx.check(sorted(tuple(round(float(c), 9) for c in q) for q in a) == sorted((round((i + .5) / nx, 9), round((j + .5) / ny, 9)) for i in range(nx) for j in range(ny)),
              'unjittered2', '%dx%d' % (nx, ny))
    n = nx * ny
    if 2 <= n <= 3:
        # image, lens and time positions are paired at random
        def pairing(s):
            smp = Sample().duplicate(n)
            StratifiedSampler(3, 4, 5, 6, nx, ny, False, 0., 1.).generate(smp, s.rand)
            cut = lambda a, b: (int((a % 1) * nx + 1e-9), int((b % 1) * ny + 1e-9))
            return tuple(sorted((cut(q.imageX, q.imageY), cut(q.lens_u, q.lens_v), int(q.time * n)) for q in smp))
        fair(pairing, n, math.factorial(n) ** 2, '%dx%d' % (nx, ny), 'pairing', ctx)
    for jit in (False, True):
        for kind in SRC:
            for p in perms(n):
                for so, sc in ((0., 1.), (2., 5.), (-1., -1.)):
                    src = Source(kind, p)
                    tag = '%dx%d jitter=%r source=%s perm=%r shutter=%r' % (nx, ny, jit, kind, p, (so, sc))
                    sm = StratifiedSampler(3, 5, -2, -1, nx, ny, jit, so, sc)
                    smp = Sample().duplicate(n)
                    with patched(src):
                        for px in (3, 4):
                            ctx.check(sm.generate(smp, src.rand), 'generate', tag)
                            strata2([(q.imageX - px, q.imageY + 2) for q in smp], nx, ny, tag, 'image', ctx)
                            ctx.check(all(0. <= q.lens_u <= 1. and 0. <= q.lens_v <= 1. for q in smp), 'lens-range', tag)
                            strata2([(q.lens_u, q.lens_v) for q in smp], nx, ny, tag, 'lens', ctx)
                            ctx.check(all(min(so, sc) - 1e-9 <= q.time <= max(so, sc) + 1e-9 for q in smp), 'time-range', tag)
                            if sc > so:
                                strata([(q.time - so) / (sc - so) for q in smp], n, tag, 'time', ctx)
                    ctx.state('st', nx, ny, jit, kind, p, so)
    ctx.trace()


class Integ(object):
    def __init__(self, reqs):
        self.reqs, self.got = reqs, []

    def request_samples(self, sampler, sample, scene):
        self.args = (sampler, scene)
        for d, n in self.reqs:
            self.got.append((sample.add_1d if d == '1' else sample.add_2d)(sampler.round_size(n)))


def do_req(case, ctx):
    seq = [REQ[i] for i in case['seq']]
    cut = case['cut']
    sm = StratifiedSampler(0, 2, 0, 2, 2, 1, True, 0., 1.)
    scene = object()
    surf, vol = Integ(seq[:cut]), Integ(seq[cut:])
    orig = Sample(sm, surf, vol, scene)
    ctx.check(surf.args == (sm, scene) and vol.args == (sm, scene), 'request-args', case)
    got = surf.got + vol.got
    want, c = [], {'1': 0, '2': 0}
    for d, n in seq:
        want.append(c[d])
        c[d] += 1
    ctx.check(got == want, 'positions', '%r -> %r' % (seq, got))
    smp = orig.duplicate(2)
    ctx.check(len(smp) == 2 and smp[0] is not smp[1], 'duplicate', case)
    kept = []
    for kind, perm in (('ramp', 'id'), ('0', 'rev'), ('alt', 'rot'), ('tla', 'swap')):
        src = Source(kind, perm)
        with patched(src):
            ctx.check(sm.generate(smp, src.rand), 'generate', case)
        for q in smp:
            for (d, n), pos in zip(seq, got):
                arr = (q.oneD if d == '1' else q.twoD)
                if not ctx.check(pos < len(arr) and arr[pos] is not None, 'delivered', '%r: request %r' % (seq, (d, n))):
                    continue
                a = arr[pos]
                tag = '%r: request %r' % (seq, (d, n))
                if d == '1':
                    ctx.check(a.shape == (n,), 'array-shape', '%s got %r' % (tag, a.shape))
                    strata(a, n, tag, 'array', ctx)
                else:
                    ctx.check(a.shape == (n, 2), 'array-shape', '%s got %r' % (tag, a.shape))
                    strata(a[:, 0], n, tag, 'array', ctx)
                    strata(a[:, 1], n, tag, 'array', ctx)
                kept.append((a, a.copy(), tag))
            ctx.check(len(q.oneD) == c['1'] and len(q.twoD) == c['2'], 'array-count', case)
    for a, b, tag in kept:
        ctx.check((a == b).all(), 'storage-shared', '%s: an earlier batch changed' % tag)
    for i, (a, b, tag) in enumerate(kept):       # pairwise: writing to one array changes no other
        a[...] = 7.
        ctx.check(all((x == y).all() for x, y, _ in kept[i + 1:]), 'storage-shared', '%s: arrays share storage' % tag)
    # a copy has its own bookkeeping
    extra = smp[0].add_1d(5), smp[0].add_2d(6)
    ctx.check(extra == (c['1'], c['2']), 'positions', case)
    more = orig.duplicate(1)[0]
    ctx.check(len(more.n1D) == c['1'] and len(more.n2D) == c['2'] and len(smp[1].n1D) == c['1'] and len(orig.n2D) == c['2'],
              'bookkeeping-shared', '%r: a request on one copy shows in the others' % (seq,))
    ctx.state('req', seq, cut)
    ctx.trace()


def RUN(case, ctx):
    ctx.outcome(case['k'])
    if case['k'] == 'fn':
        do_fn(case['n'], ctx)
    elif case['k'] == 'st':
        do_st(case['x'], case['y'], ctx)
    else:
        do_req(case, ctx)
    ctx.sample(case)
