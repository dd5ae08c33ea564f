"""F02: concurrent contributions to one film."""
from mc import sched
sched.install()
from mc.pt import *
from pytracer import Spectrum
from pytracer.film import ImageFilm
from pytracer.sampler import CameraSample
from pytracer.filter import BoxFilter, TriangleFilter
import pytracer.utility.imageio as iio

RULE = ('every schedule of every scenario (2 or 3 threads, 1 or 2 contributions each, overlapping pixels) within the preemption bound, switching before every access to stored attributes, '
        'in-place operation and lock operation of the film code; every arithmetic operation of every contribution fails once; distinct states are (scenario, schedule)')
ASSUME = ['an in-place operation on one array is a single byte-code and therefore atomic in the interpreter']
FILES = ('pytracer/film/film.py',)

FILT = {'box': lambda: BoxFilter(.5, .5), 'tri': lambda: TriangleFilter(1., 1.), 'wide': lambda: TriangleFilter(.5, 1.)}
A, B, C = (1., .5, .25), (.25, 2., 1.), (3., 0., 7.)
# kind, position, colour, per thread
SCEN = [
    ('tri', [[('a', (1., .5), A)], [('a', (1.2, .5), B)]]),
    ('tri', [[('a', (.5, .5), A)], [('a', (.5, .5), A)]]),
    ('tri', [[('s', (.5, .5), A)], [('s', (.7, .2), B)]]),
    ('tri', [[('a', (.5, .5), A)], [('s', (.7, .2), B), ('a', (.5, .5), C)]]),
    ('box', [[('a', (.5, .5), A)], [('a', (1., .5), B)]]),
    ('box', [[('a', (1., .5), A)], [('a', (1.5, .5), B)]]),
    ('box', [[('a', (1., .5), A), ('s', (1.1, .4), B)], [('a', (.7, .5), B), ('s', (1.9, .9), C)]]),
    ('wide', [[('a', (.5, .5), A)], [('a', (.5, .7), B)]]),
    ('tri', [[('a', (1., .5), A), ('a', (.5, .5), B)], [('a', (.5, .5), C), ('a', (1.3, .5), A)]]),
    ('tri', [[('a', (.5, .5), A)], [('a', (.6, .5), B)], [('s', (.5, .5), C)]]),
    ('tri', [[('s', (.5, .5), A), ('s', (.5, .5), A)], [('s', (.5, .5), B)], [('s', (.5, .5), C)]]),
]
SH = 8


def CASES(tier):
    cs = []
    for i, (f, th) in enumerate(SCEN):
        small = len(th) == 2 and sum(map(len, th)) == 2
        b = (2 if small else 1) if tier == 'quick' else (3 if small else 2)
        for k in range(SH):
            cs.append(dict(k='sched', s=i, bound=b, shard=[k, SH]))
        cs.append(dict(k='fault', s=i, bound=0 if tier == 'quick' else 1))
    return cs


def world(i):
    f, th = SCEN[i]
    sched.reset()
    film = ImageFilm(2, 1, FILT_CACHE[f], [0., 1., 0., 1.], 'unused.png')

    def mk(ops):
        def run():
            for kind, (x, y), c in ops:
                (film.add_sample if kind == 'a' else film.splat)(CameraSample(x, y), Spectrum.from_rgb(list(c)))
        return run
    return film, [mk(ops) for ops in th]


class _Cache(dict):
    def __missing__(self, f):
        base = FILT[f]()

        class Memo(type(base)):
            tab = {}

            def __call__(self, x, y):
                k = (float(x), float(y))
                if k not in self.tab:
                    self.tab[k] = super().__call__(x, y)
                return self.tab[k]
        base.__class__ = Memo
        self[f] = base
        return base


FILT_CACHE = _Cache()


def flat(film):
    """the picture the film would write"""
    old = iio.write_image
    got = []
    iio.write_image = lambda *a, **k: got.append(a[1] if len(a) > 1 else k['rgb'])
    try:
        film.write_image()
    finally:
        iio.write_image = old
    return [float(v) for v in np.ravel(got[0])]


def RUN(case, ctx):
    i = case['s']
    film, fns = world(i)
    for f in fns:
        f()
    want = flat(film)
    tag = 'scenario %d (%s)' % (i, SCEN[i][0])

    def judge(film, r, sum_ok=True):
        where = lambda: '%s schedule %r' % (tag, [c for _, _, c in r.trace])
        ctx.check(not r.deadlock, 'deadlock', where())
        if sum_ok:
            bad = [e for e in r.errors if e is not None]
            ctx.check(not bad, 'thread-error', '%s: %r' % (where(), bad))
            got = flat(film)
            ctx.check(len(got) == len(want) and all(abs(a - b) <= 1e-9 * (1 + abs(b)) for a, b in zip(got, want)), 'lost-update',
                      '%s: got %r, want %r' % (where(), got, want))
        else:
            bad = [e for e in r.errors if e is not None and not isinstance(e, sched.Injected)]
            ctx.check(not bad, 'thread-error', '%s: %r' % (where(), bad))
        ctx.check(not sched.any_held(), 'lock-held', where())
        ctx.state(i, tuple(c for _, _, c in r.trace), r.fault)
        ctx.trace()
        ctx.step(r.steps)

    if case['k'] == 'sched':
        n, pts, full = sched.explore(lambda: world(i), judge, FILES, case['bound'], shard=tuple(case['shard']))
        ctx.check(full, 'incomplete', tag)
        ctx.outcome('schedules %d shard of %d' % (i, case['shard'][1]))
    else:
        shared = sched.learn(lambda: world(i), FILES)
        for t in range(len(fns)):
            k = 0
            while True:
                hit = []

                def j(film, r):
                    hit.append(r.faulted)
                    judge(film, r, sum_ok=not r.faulted)
                    # the film still accepts contributions afterwards
                    film.add_sample(CameraSample(1., .5), Spectrum.from_rgb(list(A)))
                    film.splat(CameraSample(1., .5), Spectrum.from_rgb(list(A)))
                sched.explore(lambda: world(i), j, FILES, case['bound'], shared=shared, fault=(t, k))
                if not any(hit) or k > 400:
                    break
                k += 1
            ctx.check(k > 0, 'no-fault-point', tag)
            ctx.outcome('faults %d' % k)
    ctx.sample(case)
