"""G03: animated transforms against an axis-angle model."""
from mc.pt import *
from pytracer.transform import Transform, AnimatedTransform

RULE = ('every ordered pair of keyframes from the alphabet (translation x rotation x positive scale), every time of a grid inside, at and outside the '
        'interval, queried forwards and backwards; distinct states are (keyframe pair, time)')
ASSUME = ['relative rotations of exactly half a turn have two shortest arcs; only their endpoints are compared',
          'motion bounds are compared with tolerance of the implementation-independent chord error of a fine time grid']

TR = [(0, 0, 0), (1, -2, 3), (-4, .5, 0)]
RO = [None, (30, (0, 0, 1)), (170, (0, 0, 1)), (-170, (0, 0, 1)), (180, (1, 0, 0)), (180, (0, 0, 1)), (180, (0, 1, 0)), (120, (1, 1, 1)), (200, (1, -2, .5)), (90, (0, 1, 0)), (160, (0, 1, 0)), (150, (1, 0, 0)), (-140, (1, 0, .5))]
SC = [(1, 1, 1), (2, 2, 2), (1, 2, .5)]
IV = [(0., 1.), (2., 6.), (-1., .5), (0., 6.25e-5), (0., 4096.)]


def keys(tier):
    if tier == 'quick':
        return [(r % 2, r, 0) for r in range(len(RO))] + [(2, 0, 2), (2, 4, 2), (1, 8, 1), (1, 0, 1), (0, 7, 2)]
    ks = [(t, r, s) for t in range(2) for r in range(len(RO)) for s in (0,)]
    ks += [(2, r, 2) for r in range(0, len(RO))]
    ks += [(1, 0, 1), (0, 7, 1), (1, 8, 2), (0, 1, 2)]
    return ks


def CASES(tier):
    ks = keys(tier)
    iv = [0, 1, 3, 4] if tier == 'quick' else [0, 1, 2, 3, 4]
    cs = []
    for i, a in enumerate(ks):
        for j, b in enumerate(ks):
            cs.append(dict(a=list(a), b=list(b), iv=iv[(i + j) % len(iv)], mb=int(tier != 'quick' or i == j or (i * 5 + j * 3) % 8 == 0)))
    return cs


CHUNK = 4


def mats(k):
    t, r, s = TR[k[0]], RO[k[1]], SC[k[2]]
    R = m_rotate(*r) if r else eye()
    return t, R, s


def mk(k):
    t, r, s = TR[k[0]], RO[k[1]], SC[k[2]]
    x = Transform.translate(V(t))
    if r:
        x = x * Transform.rotate(float(r[0]), V(r[1]))
    if s != (1, 1, 1):
        x = x * Transform.scale(*[float(q) for q in s])
    return x


def rotlog(R):
    """axis, angle in [0, pi] of a rotation matrix; None at exactly pi"""
    tr = R[0][0] + R[1][1] + R[2][2]
    c = max(-1., min(1., (tr - 1.) / 2.))
    ax = [R[2][1] - R[1][2], R[0][2] - R[2][0], R[1][0] - R[0][1]]
    s = norm(ax) / 2.
    ang = math.atan2(s, c)
    if ang < 1e-9:
        return (0., 0., 1.), 0.
    if math.pi - ang < 1e-3:
        return None
    return unit(ax), ang


def model(a, b, dt):
    (t0, R0, s0), (t1, R1, s1) = mats(a), mats(b)
    if dt <= 0:
        dt = 0.
    if dt >= 1:
        dt = 1.
    rl = rotlog(mm(mT(R0), R1))
    if rl is None and 0 < dt < 1:
        return None
    R = R0 if dt == 0 else R1 if dt == 1 else mm(R0, m_rotate(math.degrees(rl[1]) * dt, rl[0])) if rl[1] else R0
    t = [(1 - dt) * x + dt * y for x, y in zip(t0, t1)]
    s = [(1 - dt) * x + dt * y for x, y in zip(s0, s1)]
    return mm(mm(m_translate(t), R), m_scale(s))


FR = [-.5, 0., .125, .25, .5, .75, .9375, 1., 1.5]
PTS = [(0, 0, 0), (1, 2, -3), (-2, .5, 1)]
BX = ((-1, -.5, 0), (1, 2, 1))


def RUN(case, ctx):
    a, b = case['a'], case['b']
    t0, t1 = IV[case['iv']]
    A, B = mk(a), mk(b)
    at = AnimatedTransform(A, t0, B, t1)
    tag = 'keys %r -> %r over [%r,%r]' % (a, b, t0, t1)
    times = [(f, t0 + f * (t1 - t0)) for f in FR]
    seen = {}
    for order, seq in (('fwd', times), ('bwd', times[::-1])):
        for f, tm in seq:
            ms = model(a, b, f)
            if ms is None:
                # half-turn: rigid up to the interpolated scale at least
                ctx.skip()
                continue
            ctx.state(tuple(a), tuple(b), f)
            for p in PTS:
                got = at(tm, Pt(p))
                ctx.close(got, m_pt(ms, p), 'point', '%s time %r point %r' % (tag, tm, p), tol=1e-5)
            v = (1, -1, .5)
            got = at(tm, V(v))
            ctx.close(got, m_vec(ms, v), 'vector', '%s time %r' % (tag, tm), tol=1e-5)
            ctx.check(type(got) is Vector, 'type', tag)
            for kind in (Ray, RayDifferential):
                r = kind(Pt(PTS[1]), V(v), .5, 9., 2, tm)
                g = at(r)
                ctx.close(g.o, m_pt(ms, PTS[1]), 'ray-o', '%s time %r' % (tag, tm), tol=1e-5)
                ctx.close(g.d, m_vec(ms, v), 'ray-d', '%s time %r' % (tag, tm), tol=1e-5)
                ctx.check((g.mint, g.maxt, g.depth, g.time) == (.5, 9., 2, tm) and type(g) is kind, 'ray-meta', tag)
                ctx.check(L(r.o) == L(PTS[1]) and L(r.d) == L(v), 'ray-mutated', tag)
            it = at.interpolate(tm)
            ctx.close(it(Pt(PTS[2])), m_pt(ms, PTS[2]), 'interpolate', '%s time %r' % (tag, tm), tol=1e-5)
            ctx.close(it.inverse()(it(Pt(PTS[1]))), PTS[1], 'interp-inverse', tag, tol=1e-5)
            key = (f,)
            val = tuple(L(at(tm, Pt(PTS[1]))))
            if key in seen:
                ctx.check(seen[key] == val, 'order', '%s: answer at %r depends on earlier queries' % (tag, tm))
            seen[key] = val
    # keyframe instants are exact
    for tm, X in ((t0, A), (t1, B), (t0 - 1., A), (t1 + 1., B)):
        for p in PTS:
            ctx.check(L(at(tm, Pt(p))) == L(X(Pt(p))), 'endpoint', '%s at %r' % (tag, tm))
    # motion bounds
    for inv in ((False, True) if case['mb'] else ()):
        mb = at.motion_bounds(BBox(Pt(BX[0]), Pt(BX[1])), inv)
        lo, hi = [INF] * 3, [-INF] * 3
        for n in range(25):
            f = n / 24.
            ms = model(a, b, f)
            if ms is None:
                continue
            if inv:
                ms = minv(ms)
            cs = [m_pt(ms, c) for c in grid(*zip(*BX))]
            for i in range(3):
                lo[i] = min(lo[i], min(c[i] for c in cs))
                hi[i] = max(hi[i], max(c[i] for c in cs))
        e = 2e-3 * (1 + max(map(abs, lo + hi)))
        ctx.check(all(mb.pMin[i] <= lo[i] + e and mb.pMax[i] >= hi[i] - e for i in range(3)), 'motion-bounds',
                  '%s inverse=%r: %r..%r does not enclose %r..%r' % (tag, inv, L(mb.pMin), L(mb.pMax), lo, hi))
        if a == b:
            ctx.close(mb.pMin, lo, 'static-bounds', tag)
            ctx.close(mb.pMax, hi, 'static-bounds', tag)
    ctx.outcome((a == b))
    ctx.sample(dict(keys=[a, b], interval=[t0, t1], mid=model(a, b, .5)))
    ctx.trace()
