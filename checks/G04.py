"""G04: frames, spherical angles, and ray copy/derive/scale histories."""
from mc.pt import *
from mc.core import isclose
from pytracer.geometry.utility import (coordinate_system, normalize, face_forward, spherical_direction,
                                       spherical_theta, spherical_phi)

RULE = ('every direction of an integer lattice (all axis, sign and diagonal cases, several magnitudes, directions within 1e-12 of an axis), every '
        'ordered pair of lattice directions for orienting, every angle pair of a grid, and every history of up to 3 (4 thorough) '
        'copy/derive/scale/write operations on a growing pool of rays; distinct states are directions, angle pairs and ray-pool contents')
ASSUME = ['the azimuth of a direction along the pole is only required to lie in the full turn']

OPS = ['ray', 'rd_from_ray', 'rd', 'parent', 'rdparent', 'scale2', 'scale.25', 'w_o', 'w_d', 'w_rx', 'w_maxt']


def dirs(n):
    g = range(-n, n + 1)
    ds = [d for d in grid(g, g, g) if any(d)]
    e = 1e-12
    ds += [(1, e, 0), (-1, 0, -e), (e, 1, -e), (0, e, 1), (-e, e, -1), (1, -e, 0), (1e-6, -1e-6, -1), (-1, -1e-9, 0)]
    return ds


def CASES(tier):
    n = 2 if tier == 'quick' else 4
    ds = dirs(n)
    cs = [dict(k='dir', d=ds[i:i + 12]) for i in range(0, len(ds), 12)]
    cs += [dict(k='face', d=d) for d in dirs(1)]
    na = 12 if tier == 'quick' else 48
    cs += [dict(k='ang', i=i, n=na) for i in range(na + 1)]
    dep = 3 if tier == 'quick' else 4
    for kind in ('Ray', 'RD', 'Ray0', 'RD0'):
        for a in range(len(OPS)):
            for b in range(len(OPS)):
                cs.append(dict(k='ray', kind=kind, pre=[[a, 0], [b, 0]], depth=dep))
                if creates(OPS[a]):
                    cs.append(dict(k='ray', kind=kind, pre=[[a, 0], [b, 1]], depth=dep))
    return cs


CHUNK = 2


def creates(op):
    return op in ('ray', 'rd_from_ray', 'rd', 'parent', 'rdparent')


def do_dir(d, ctx):
    u = unit(d)
    for cls in (Vector, Normal):
        x = cls(*[float(c) for c in d])
        keep = L(x)
        nv = normalize(x)
        ctx.check(L(x) == keep, 'normalize-mutates', d)
        ctx.check(type(nv) is cls, 'normalize-type', d)
        ctx.close(nv, u, 'normalize', d, tol=1e-12)
        nv[0] = 77.
        ctx.check(L(x) == keep, 'normalize-alias', d)
        y = x.copy()
        r = y.normalize()
        ctx.close(y, u, 'inplace-normalize', d, tol=1e-12)
        ctx.check(L(x) == keep, 'copy-alias', d)
        ctx.close(x.length(), norm(d), 'length', d, tol=1e-12)
        ctx.close(x.sq_length(), dot(d, d), 'sq-length', d, tol=1e-12)
        z = normalize(cls(0., 0., 0.))
        ctx.check(L(z) == [0., 0., 0.], 'normalize-zero', d)
    v = V(u)
    keep = L(v)
    fr = coordinate_system(v)
    ctx.check(L(v) == keep, 'frame-mutates', d)
    a, b, c = [L(w) for w in fr]
    ctx.check(L(a) == keep, 'frame-first', d)
    for n, w in (('a', a), ('b', b), ('c', c)):
        ctx.close(norm(w), 1., 'frame-unit', (d, n), tol=1e-9)
    for p, q in ((a, b), (b, c), (a, c)):
        ctx.check(abs(dot(p, q)) < 1e-9, 'frame-perp', d)
    ctx.close(dot(cross(a, b), c), 1., 'frame-orientation', d, tol=1e-9)
    th, ph = spherical_theta(v), spherical_phi(v)
    ctx.check(0. <= th <= math.pi + 1e-12 and (0. <= ph < 2 * math.pi or -1e-6 < v.y < 0. <= ph <= 2 * math.pi), 'angle-range', d, th=th, ph=ph)
    back = spherical_direction(math.sin(th), math.cos(th), ph)
    ctx.close(back, u, 'angle-roundtrip', d, tol=3e-8)
    ctx.close(th, math.atan2(math.hypot(u[0], u[1]), u[2]), 'theta', d, tol=3e-8)
    X, Y, Z = fr[1], fr[2], fr[0]
    kx = [L(X), L(Y), L(Z)]
    got = spherical_direction(math.sin(th), math.cos(th), ph, X, Y, Z)
    want = [b[i] * u[0] + c[i] * u[1] + a[i] * u[2] for i in range(3)]
    ctx.close(got, want, 'basis-direction', d, tol=3e-8)
    ctx.check([L(X), L(Y), L(Z)] == kx, 'basis-mutated', d)
    ctx.state('d', tuple(round(x, 9) for x in u))


def do_face(d, ctx):
    for e in dirs(1):
        n, v = Nm(d), V(e)
        s = dot(d, e)
        f = face_forward(n, v)
        if abs(s) < 1e-9:
            ctx.skip()
            ctx.check(L(f) in (L(n), [-x for x in L(n)]), 'face-perp', (d, e))
        else:
            ctx.check(L(f) == [math.copysign(1, s) * x for x in d], 'face', (d, e), got=L(f))
        ctx.check(type(f) is Normal and L(n) == L(Nm(d)) and L(v) == L(V(e)), 'face-mutates', (d, e))
        f[0] = 55.
        ctx.check(L(n) == L(Nm(d)), 'face-alias', (d, e))
        ctx.state('f', d, e)
        for A in (V, Nm):
            for B in (V, Nm):
                x = A(d).cross(B(e))
                ctx.check(L(x) == L(cross(d, e)) or isclose(x, cross(d, e), 1e-15), 'cross', (d, e))
                ctx.close(A(d).abs_dot(B(e)), abs(s), 'absdot', (d, e), tol=1e-12)
        p, q = Pt(d), Pt(e)
        w = p - q
        ctx.check(type(w) is Vector and L(w) == sub(L(p), L(q)), 'point-difference', (d, e))
        w = p - v
        ctx.check(type(w) is Point and L(w) == sub(L(p), L(v)), 'point-minus-vector', (d, e))
        ctx.close(p.dist(q), norm(sub(L(p), L(q))), 'dist', (d, e), tol=1e-12)
        ctx.close(p.sq_dist(q), norm(sub(L(p), L(q))) ** 2, 'dist', (d, e), tol=1e-12)
        r = Ray(p, v)
        for t in (0., 1., -.5, 4.):
            g = r(t)
            ctx.check(type(g) is Point, 'ray-call-type', (d, e))
            ctx.close(g, add(L(p), mul(L(v), t)), 'ray-call', (d, e, t), tol=1e-12)
        ctx.check(L(r.o) == L(p) and L(r.d) == L(v), 'ray-call-mutates', (d, e))


def do_ang(i, n, ctx):
    th = math.pi * i / n
    for j in range(n):
        ph = 2 * math.pi * j / n
        v = spherical_direction(math.sin(th), math.cos(th), ph)
        ctx.close(v, [math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)], 'direction', (th, ph), tol=1e-12)
        ctx.close(spherical_theta(v), th, 'theta-back', (th, ph), tol=1e-7)
        if 0 < i < n:
            d = abs(spherical_phi(v) - ph)
            ctx.check(min(d, abs(d - 2 * math.pi)) < 1e-7, 'phi-back', (th, ph), got=spherical_phi(v))
        ctx.state('a', i, j)


# --- ray histories
def fields(r):
    rec = [type(r).__name__, L(r.o), L(r.d), float(r.mint), float(r.maxt), int(r.depth), float(r.time)]
    if isinstance(r, RayDifferential):
        rec += [bool(r.has_differentials), L(r.rxOrigin), L(r.ryOrigin), L(r.rxDirection), L(r.ryDirection)]
    return rec


ZD = [False, [0.] * 3, [0.] * 3, [0.] * 3, [0.] * 3]


def applies(op, m):
    rd = m[0] == 'RayDifferential'
    return rd if op in ('rd', 'rdparent', 'scale2', 'scale.25', 'w_rx') else True


def real(op, pool, i):
    r = pool[i]
    if op == 'ray':
        pool.append(Ray.from_ray(r))
    elif op == 'rd_from_ray':
        pool.append(RayDifferential.from_ray(r))
    elif op == 'rd':
        pool.append(RayDifferential.from_rd(r))
    elif op in ('parent', 'rdparent'):
        o, d = Point(7., 8., 9.), Vector(-1., 0., 2.)
        cls = Ray if op == 'parent' else RayDifferential
        pool.append(cls.from_parent(o, d, r, .25, 6.))
        o[0] = d[0] = -99.
    elif op.startswith('scale'):
        r.scale_differential(float(op[5:]))
    elif op == 'w_o':
        r.o[1] = r.o[1] + 10.
    elif op == 'w_d':
        r.d[2] = r.d[2] - 1.
    elif op == 'w_rx':
        r.rxDirection[0] = r.rxDirection[0] + 3.
        r.ryOrigin[2] = r.ryOrigin[2] - 2.
    elif op == 'w_maxt':
        r.maxt = r.maxt - 1.


def model(op, pool, i):
    import copy
    m = pool[i]
    if op == 'ray':
        pool.append(['Ray'] + copy.deepcopy(m[1:7]))
    elif op == 'rd_from_ray':
        pool.append(['RayDifferential'] + copy.deepcopy(m[1:7]) + copy.deepcopy(ZD))
    elif op == 'rd':
        pool.append(copy.deepcopy(m))
    elif op in ('parent', 'rdparent'):
        r = ['Ray' if op == 'parent' else 'RayDifferential', [7., 8., 9.], [-1., 0., 2.], .25, 6., m[5] + 1, m[6]]
        pool.append(r + (copy.deepcopy(ZD) if op == 'rdparent' else []))
    elif op.startswith('scale'):
        s = float(op[5:])
        for k, c in ((8, 1), (9, 1), (10, 2), (11, 2)):
            m[k] = [c0 + (x - c0) * s for x, c0 in zip(m[k], m[c])]
    elif op == 'w_o':
        m[1][1] += 10.
    elif op == 'w_d':
        m[2][2] -= 1.
    elif op == 'w_rx':
        m[10][0] += 3.
        m[9][2] -= 2.
    elif op == 'w_maxt':
        m[4] -= 1.


def start(kind):
    if kind.endswith('0'):          # the default interval and time, negative time further down
        kind = kind[:-1]
        r, m = start(kind)
        r.mint, r.maxt, r.time, r.depth = 0., INF, -2., 0
        m[3:7] = [0., INF, 0, -2.]
        return r, m
    if kind == 'Ray':
        r = Ray(Point(1., 2., 3.), Vector(0., 1., -1.), .5, 8., 2, .75)
    else:
        r = RayDifferential(Point(1., 2., 3.), Vector(0., 1., -1.), .5, 8., 2, .75)
        r.has_differentials = True
        r.rxOrigin, r.ryOrigin = Point(1., 3., 3.), Point(1., 2., 5.)
        r.rxDirection, r.ryDirection = Vector(1., 1., -1.), Vector(0., 2., -1.)
    m = [kind if kind == 'Ray' else 'RayDifferential', [1., 2., 3.], [0., 1., -1.], .5, 8., 2, .75]
    if kind != 'Ray':
        m += [True, [1., 3., 3.], [1., 2., 5.], [1., 1., -1.], [0., 2., -1.]]
    return r, m


def flat(rec):
    out = []
    for x in rec[1:]:
        out += x if isinstance(x, list) else [float(x)]
    return out


def do_ray(case, ctx):
    pre, depth = [tuple(x) for x in case['pre']], case['depth']

    def play(hist):
        r, m = start(case['kind'])
        rp, mp = [r], [m]
        for op, i in hist:
            name = OPS[op]
            if i >= len(mp) or not applies(name, mp[i]):
                return None
            real(name, rp, i)
            model(name, mp, i)
        return rp, mp

    def go(hist):
        st = play(hist)
        if st is None:
            return
        rp, mp = st
        ctx.state('r', mp)
        for k, (r, m) in enumerate(zip(rp, mp)):
            f = fields(r)
            ctx.check(f[0] == m[0] and isclose(flat(f), flat(m), 1e-12), 'ray-history',
                      '%s after %r: ray %d is %r, want %r' % (case['kind'], [(OPS[o], i) for o, i in hist], k, f, m))
        ctx.trace()
        if len(hist) < depth:
            for op in range(len(OPS)):
                for i in range(len(mp)):
                    go(hist + [(op, i)])
    go(list(pre))


def RUN(case, ctx):
    k = case['k']
    ctx.outcome(k)
    if k == 'dir':
        for d in case['d']:
            do_dir(d, ctx)
            ctx.trace()
    elif k == 'face':
        do_face(case['d'], ctx)
        ctx.trace()
    elif k == 'ang':
        do_ang(case['i'], case['n'], ctx)
        ctx.trace()
    else:
        do_ray(case, ctx)
    ctx.sample(case)
