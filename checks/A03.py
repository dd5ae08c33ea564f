"""A03: concurrent queries on one lazily refined grid."""
from mc import sched
sched.install()
sched.PRIVATE_INIT = True
from mc.pt import *
from pytracer.aggregate import Primitive, Intersection, GridAccel

RULE = ('every schedule of every scenario (2 or 3 threads, 1 or 2 queries each, on a shared grid refined on first use: one or several unrefined objects in the same cell, in different cells, nested refinement, '
        'nearest and occlusion queries) within the preemption bound, switching before every access to stored attributes and elements and every lock operation of the aggregate code; every refinement call '
        'fails once, in every schedule within the bound; distinct states are (scenario, schedule, failure)')
ASSUME = ['objects are stand-ins (faces x = const with a small square outline) whose refinement is itself atomic; a constructor does not hand out the object it builds before it returns (no switches inside constructors); the aggregate code is the real one']
FILES = ('pytracer/aggregate/aggregate.py',)
BASE = frozenset(['voxels', 'primitives', 'all_can_intersect', 'lock', 'bounds'])


class Boom(Exception):
    pass


class World(object):
    fail = -1

    def __init__(self):
        self.calls = 0
        self.inner = 0
        self.prims = {}


class Face(Primitive):
    """x = at, y and z in the small square"""
    lazy = ()

    def __init__(self, w, name, at, lazy=(), lo=None, hi=None):
        super().__init__()
        self.w, self.name, self.at, self.lazy = w, name, at, lazy
        self.box = BBox(Pt([at if lo is None else lo, .45, .45]), Pt([at if hi is None else hi, .55, .55]))

    def world_bound(self): return self.box
    def can_intersect(self): return not self.lazy
    def get_area_light(self): return None
    def get_bsdf(self, dg, o2w): return None
    def get_bssrdf(self, dg, o2w): return None

    def refine(self, refined):
        k = self.w.calls
        self.w.calls += 1
        if k == self.w.fail:
            raise Boom('refinement %d' % k)
        refined.extend(build(self.w, self.lazy))

    def t(self, r):
        dx = float(r.d[0])
        if dx == 0.:
            return None
        t = (self.at - float(r.o[0])) / dx
        y, z = float(r.o[1]) + t * float(r.d[1]), float(r.o[2]) + t * float(r.d[2])
        return t if r.mint <= t <= r.maxt and .45 <= y <= .55 and .45 <= z <= .55 else None

    def intersect(self, r, isect):
        if self.lazy:
            raise AssertionError('%s is asked before it is refined' % self.name)
        t = self.t(r)
        if t is None:
            return False
        r.maxt = t
        isect.primitive = self
        return True

    def intersect_p(self, r):
        if self.lazy:
            raise AssertionError('%s is asked before it is refined' % self.name)
        return self.t(r) is not None


def leaf(name, at):
    return (name, at, (), at, at)


def lazy(name, *parts):
    lo, hi = min(p[3] for p in parts), max(p[4] for p in parts)
    return (name, lo, parts, lo, hi)


def build(w, specs):
    return [Face(w, *s) for s in specs]


def leaves(specs):
    for s in specs:
        if s[2]:
            yield from leaves(s[2])
        else:
            yield s


F, B, M, S = ((-2., .5, .5), (1., 0., 0.)), ((9., .5, .5), (-1., 0., 0.)), ((3.2, .47, .52), (1., .01, 0.)), ((-1., .5, 3.), (1., 0., 0.))
D = ((-1., .46, .46), (1., .01, .005))
SCEN = [
    # objects, queries per thread: (kind, ray)
    ([lazy('a', leaf('a1', 1.))], [[('n', F)], [('n', F)]], 2),
    ([lazy('a', leaf('a1', 1.), leaf('a2', 3.))], [[('n', F)], [('n', B)]], 1),
    ([lazy('a', leaf('a1', 1.)), lazy('b', leaf('b1', 1.))], [[('n', F)], [('o', F)]], 2),
    ([lazy('a', leaf('a1', 1.)), leaf('c', 3.), lazy('b', leaf('b1', 6.))], [[('n', F)], [('n', B)]], 2),
    ([lazy('a', lazy('aa', leaf('a1', 1.), leaf('a2', 2.)), leaf('a3', 1.5))], [[('o', F)], [('n', D)]], 1),
    ([lazy('a', leaf('a1', 1.)), lazy('b', leaf('b1', 4.), leaf('b2', 5.))], [[('n', M)], [('o', M)]], 1),
    ([lazy('a', leaf('a1', 1.), leaf('a2', 3.)), leaf('c', 2.)], [[('n', D)], [('o', F)]], 1),
    ([lazy('a', leaf('a1', 1.))], [[('o', F)], [('o', B)], [('n', D)]], 1),
    ([lazy('a', leaf('a1', 1.), leaf('a2', 3.))], [[('n', F), ('n', B)], [('n', B), ('o', F)]], 0),
]
SH = 8


def CASES(tier):
    cs = []
    for i, (_, q, b) in enumerate(SCEN):
        b += tier != 'quick'
        for k in range(SH):
            cs.append(dict(k='sched', s=i, bound=b, shard=[k, SH]))
        for f in range(4):
            cs.append(dict(k='fail', s=i, bound=0 if i in (4, 6, 7, 8) and tier == 'quick' else min(b, 1), f=f))
    return cs


def ask(w, agg, kind, ray, mint=0., maxt=INF):
    r = Ray(Pt(ray[0]), V(ray[1]), mint, maxt)
    if kind == 'o':
        return bool(agg.intersect_p(r)), float(r.maxt)
    i = Intersection()
    h = bool(agg.intersect(r, i))
    return h, float(r.maxt), i.primitive.name if i.primitive is not None else None


def oracle(specs, kind, ray):
    o, d = ray
    best = None
    for name, at, _, _, _ in leaves(specs):
        t = (at - o[0]) / d[0]
        y, z = o[1] + t * d[1], o[2] + t * d[2]
        if t >= 0. and .45 <= y <= .55 and .45 <= z <= .55 and (best is None or t < best[0]):
            best = (t, name)
    if kind == 'o':
        return best is not None, INF
    return (True, best[0], best[1]) if best else (False, INF, None)


def same(a, b):
    # two objects at the same place: either may be named
    return a[0] == b[0] and (a[1] == b[1] or abs(a[1] - b[1]) < 1e-9)


def world(i, fail=-1):
    specs, qs, _ = SCEN[i]
    sched.reset()
    w = World()
    w.fail = fail
    w.agg = GridAccel(build(w, specs), False)

    def mk(ops):
        return lambda: [ask(w, w.agg, k, r) for k, r in ops]
    return w, [mk(ops) for ops in qs]


def RUN(case, ctx):
    i = case['s']
    specs, qs, _ = SCEN[i]
    tag = 'scenario %d' % i
    w, fns = world(i)
    for f in fns:
        f()
    calls = w.calls
    fail = case.get('f', -1)
    if fail >= calls:
        ctx.outcome('no such refinement')
        return
    want = [[oracle(specs, k, r) for k, r in ops] for ops in qs]
    at = {s[0]: s[1] for s in leaves(specs)}

    def judge(w, r):
        where = lambda: '%s failing %d schedule %r' % (tag, fail, [c for _, _, c in r.trace])
        ctx.check(not r.deadlock, 'deadlock', where())
        if r.deadlock:
            return False
        ctx.check(not sched.any_held(), 'lock-held', where())
        for t in range(len(qs)):
            e = r.errors[t]
            if e is not None:
                ctx.check(fail >= 0 and isinstance(e, Boom), 'thread-error', lambda: '%s: thread %d %r' % (where(), t, e))
                continue
            for g, x in zip(r.results[t], want[t]):
                ctx.check(same(g, x) and (len(g) < 3 or g[2] is None or at[g[2]] == at[x[2]]), 'wrong-answer', lambda: '%s: thread %d got %r want %r' % (where(), t, g, x))
        ctx.check(sum(e is not None for e in r.errors) == (1 if fail >= 0 else 0), 'failures-reported', lambda: '%s: %r' % (where(), r.errors))
        if fail < 0:
            ctx.check(w.calls == calls, 'refinements', lambda: '%s: %d refinements, sequentially %d' % (where(), w.calls, calls))
        # whatever happened, the grid answers afterwards
        for k, ray in (('n', F), ('o', B), ('n', B), ('o', D), ('n', D)):
            if sched.any_held():
                break
            g, x = ask(w, w.agg, k, ray), oracle(specs, k, ray)
            ctx.check(same(g, x), 'wrong-afterwards', lambda: '%s: %r got %r want %r' % (where(), (k, ray), g, x))
        ctx.state(i, tuple(c for _, _, c in r.trace), fail)
        ctx.trace()
        ctx.step(r.steps)

    mk = lambda: world(i, fail)
    shared = sched.learn(lambda: world(i), FILES) | BASE
    n, pts, full = sched.explore(mk, judge, FILES, case['bound'], shared=shared, shard=tuple(case.get('shard', (0, 1))))
    ctx.check(full, 'incomplete', tag)
    ctx.outcome('%s %d' % (case['k'], i))
    ctx.sample(case)
