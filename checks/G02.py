"""G02: chains of elementary transforms against an independent 4x4 list model."""
from mc.pt import *

RULE = ('every chain of up to 3 (4 thorough, reduced alphabet) elementary transforms over a 16-letter alphabet; each chain is a state, '
        'each application of the composed transform to a probe (points, vectors, normals, rays, boxes) a checked transition; '
        'distinct states are distinct composed matrices')
ASSUME = ['projective chains are probed with points whose homogeneous weight is away from zero']

LA1 = ((1, 2, 3), (4, -2, 5), (0, 1, 0))
LA2 = ((0, -3, 1), (2, 1, -4), (.5, 0, 2))


def m_look(pos, look, up):
    z = unit(sub(look, pos))
    x = unit(cross(unit(up), z))
    y = cross(z, x)
    m = eye()
    for i in range(3):
        m[i][0], m[i][1], m[i][2], m[i][3] = x[i], y[i], z[i], float(pos[i])
    return m


def m_persp(fov, n, f):
    t = 1. / math.tan(math.radians(fov) / 2.)
    return [[t, 0, 0, 0], [0, t, 0, 0], [0, 0, f / (f - n), -f * n / (f - n)], [0, 0, 1., 0]]


def m_ortho(n, f):
    m = eye()
    m[2][2] = 1. / (f - n)
    m[2][3] = -n / (f - n)
    return m


T = trans.Transform
ALPHA = [
    ('T(1,2,3)', lambda: T.translate(V((1, 2, 3))), m_translate((1, 2, 3)), 1),
    ('S(2,2,2)', lambda: T.scale(2., 2., 2.), m_scale((2, 2, 2)), 1),
    ('Rx30', lambda: T.rotate_x(30.), m_rotate(30, (1, 0, 0)), 1),
    ('Ry90', lambda: T.rotate_y(90.), m_rotate(90, (0, 1, 0)), 1),
    ('Rz-45', lambda: T.rotate_z(-45.), m_rotate(-45, (0, 0, 1)), 1),
    ('S(-1,1,1)', lambda: T.scale(-1., 1., 1.), m_scale((-1, 1, 1)), 1),
    ('R(120;1,1,1)', lambda: T.rotate(120., V((1, 1, 1))), m_rotate(120, (1, 1, 1)), 1),
    ('LA1', lambda: T.look_at(Pt(LA1[0]), Pt(LA1[1]), V(LA1[2])), m_look(*LA1), 1),
    ('S(1,-2,.5)', lambda: T.scale(1., -2., .5), m_scale((1, -2, .5)), 1),
    ('M(shear)', lambda: T(np.array([[1., .5, 0., 1.], [0., 1., -1., 0.], [.25, 0., 2., -1.], [0., 0., 0., 1.]])),
     [[1., .5, 0., 1.], [0., 1., -1., 0.], [.25, 0., 2., -1.], [0., 0., 0., 1.]], 1),
    ('R(50;1,-2,.5)', lambda: T.rotate(50., V((1, -2, .5))), m_rotate(50, (1, -2, .5)), 1),
    ('LA2', lambda: T.look_at(Pt(LA2[0]), Pt(LA2[1]), V(LA2[2])), m_look(*LA2), 1),
    ('S(-1,-1,-1)', lambda: T.scale(-1., -1., -1.), m_scale((-1, -1, -1)), 1),
    ('inv(T)', lambda: T.translate(V((-.5, 4, 2))).inverse(), m_translate((.5, -4, -2)), 1),
    ('P60', lambda: T.perspective(60., .5, 100.), m_persp(60, .5, 100.), 0),
    ('O', lambda: T.orthographic(.5, 10.), m_ortho(.5, 10.), 1),
]
PTS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 2, 3), (2, -.5, 4)]
VECS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, -2, .5)]
BOX = ((-1, 0, 1), (2, 3, 1.5))


def CASES(tier):
    n = len(ALPHA)
    if tier == 'quick':
        return [dict(chain=[]), dict(oblique='R(180;1,1,1)')] + [dict(chain=[i], deep=0) for i in range(n)] + \
               [dict(chain=[i, j], deep=1) for i in range(n) for j in range(n)]
    return [dict(chain=[]), dict(oblique='R(180;1,1,1)')] + [dict(chain=[i], deep=0) for i in range(n)] + \
        [dict(chain=[i, j], deep=2) for i in range(n) for j in range(n)]


def probe(ctx, name, t, ms, affine, mats):
    """t: composed transform; ms: model matrix"""
    tag = 'chain %s' % '*'.join(name)
    ctx.state(tuple(tuple(round(x, 9) for x in r) for r in ms))
    inv = t.inverse()
    back = []
    for p in PTS:
        w = sum(ms[3][j] * p[j] for j in range(3)) + ms[3][3]
        if abs(w) < 1e-3:
            ctx.skip()
            continue
        a = Pt(p)
        got = t(a)
        want = m_pt(ms, p)
        # applying the steps one at a time, in the model
        ctx.close(got, want, 'point', '%s of point %r' % (tag, p), tol=1e-7)
        ctx.check(type(got) is Point, 'point-type', tag)
        ctx.check(L(a) == L(p), 'point-mutated', tag)
        sz = max(1., max(abs(x) for x in want))
        ctx.check(max(abs(x - y) for x, y in zip(L(inv(got)), p)) <= 1e-6 * sz * 10, 'inverse-point', '%s: inverse does not undo %r' % (tag, p), got=L(inv(got)))
        back.append((p, got))
    d = det3(ms)
    if abs(d) > 1e-9:
        ctx.check(bool(t.swaps_handedness()) == (d < 0), 'handedness', '%s det %r' % (tag, d))
    if not affine:
        return
    for v in VECS:
        a = V(v)
        got = t(a)
        ctx.close(got, m_vec(ms, v), 'vector', '%s of vector %r' % (tag, v), tol=1e-7)
        ctx.check(type(got) is Vector and L(a) == L(v), 'vector-type', tag)
        ctx.close(inv(got), v, 'inverse-vector', '%s: inverse does not undo vector %r' % (tag, v))
        b = Nm(v)
        gn = t(b)
        ctx.close(gn, m_nrm(ms, v), 'normal', '%s of normal %r' % (tag, v))
        ctx.check(type(gn) is Normal and L(b) == L(v), 'normal-type', tag)
        for u in VECS:
            # perpendicular tangent of v
            tan = cross(v, u)
            ctx.check(abs(dot(L(gn), L(t(V(tan))))) < 1e-6 * (1 + norm(L(gn))) * (1 + norm(tan)) * 10, 'perpendicular', '%s: normal %r tangent %r' % (tag, v, tan))
    o, dv = (1, -2, .5), (.5, 1, -3)
    for kind in (Ray, RayDifferential):
        r = kind(Pt(o), V(dv), .25, 7., 3, .75)
        if kind is RayDifferential:
            r.has_differentials = True
            r.rxOrigin, r.ryOrigin = Pt((1, 1, 1)), Pt((0, 2, 4))
            r.rxDirection, r.ryDirection = V((1, 0, 2)), V((-1, 1, 1))
        g = t(r)
        ctx.check(type(g) is kind, 'ray-type', tag)
        ctx.close(g.o, m_pt(ms, o), 'ray-o', tag)
        ctx.close(g.d, m_vec(ms, dv), 'ray-d', tag)
        ctx.check((g.mint, g.maxt, g.depth, g.time) == (.25, 7., 3, .75), 'ray-meta', tag)
        ctx.close(g(2.), m_pt(ms, add(o, mul(dv, 2.))), 'ray-at', tag)
        ctx.check(L(r.o) == L(o) and L(r.d) == L(dv), 'ray-mutated', tag)
        if kind is RayDifferential:
            ctx.check(g.has_differentials is True, 'rd-flag', tag)
            ctx.close(g.rxOrigin, m_pt(ms, (1, 1, 1)), 'rd-rxo', tag)
            ctx.close(g.ryOrigin, m_pt(ms, (0, 2, 4)), 'rd-ryo', tag)
            ctx.close(g.rxDirection, m_vec(ms, (1, 0, 2)), 'rd-rxd', tag)
            ctx.close(g.ryDirection, m_vec(ms, (-1, 1, 1)), 'rd-ryd', tag)
            ctx.check(L(r.rxOrigin) == [1, 1, 1] and L(r.ryDirection) == [-1, 1, 1], 'rd-mutated', tag)
    b = BBox(Pt(BOX[0]), Pt(BOX[1]))
    g = t(b)
    cs = [m_pt(ms, c) for c in grid(*zip(*BOX))]
    lo = [min(c[i] for c in cs) for i in range(3)]
    hi = [max(c[i] for c in cs) for i in range(3)]
    e = [1e-7 * (1 + abs(x)) for x in add(lo, hi)]
    axis = all(sum(1 for x in r[:3] if abs(x) > 1e-9) == 1 for r in ms[:3])
    # oblique linear parts: see the known finding G02-oblique-box (pinned by the repository's own test)
    ctx.check(not axis or all(g.pMin[i] <= lo[i] + e[i] and g.pMax[i] >= hi[i] - e[i] for i in range(3)), 'box', '%s: box %r..%r does not enclose %r..%r' % (tag, L(g.pMin), L(g.pMax), lo, hi))
    if axis:
        ctx.close(g.pMin, lo, 'box-tight', tag)
        ctx.close(g.pMax, hi, 'box-tight', tag)
    ctx.check(L(b.pMin) == L(BOX[0]) and L(b.pMax) == L(BOX[1]), 'box-mutated', tag)
    ctx.sample(dict(chain=name, point=PTS[4], image=m_pt(ms, PTS[4])))
    ctx.outcome((d < 0))


def build(ctx, chain):
    fs = [ALPHA[i][1]() for i in chain]
    keep = [(np.array(f.m), np.array(f.m_inv)) for f in fs]
    t = T()
    ms = eye()
    for i, f in zip(chain, fs):
        t = t * f
        ms = mm(ms, ALPHA[i][2])
    for f, (a, b) in zip(fs, keep):
        ctx.check(np.array_equal(f.m, a) and np.array_equal(f.m_inv, b), 'factor-mutated', 'composition changed a factor')
    return t, ms, fs


def one(ctx, chain):
    t, ms, fs = build(ctx, chain)
    name = [ALPHA[i][0] for i in chain]
    affine = all(ALPHA[i][3] for i in chain)
    probe(ctx, name, t, ms, affine, None)
    # one step at a time with the real objects
    for p in PTS[3:5]:
        q, ok, acc = Pt(p), True, p
        for i in reversed(chain):
            m = ALPHA[i][2]
            if abs(sum(m[3][j] * acc[j] for j in range(3)) + m[3][3]) < 1e-3:
                ok = False
                break
            acc = m_pt(m, acc)
            q = ALPHA[i][1]()(q)
        w = sum(ms[3][j] * p[j] for j in range(3)) + ms[3][3]
        if ok and abs(w) > 1e-3:
            ctx.close(t(Pt(p)), q, 'stepwise', '*'.join(name))
    c = t.copy()
    ctx.check(c == t and not (c != t), 'copy-eq', 'copy differs')
    ctx.check(t.inverse().inverse() == t, 'double-inverse', '*'.join(name))
    if chain:
        far = max(abs(ms[i][j] - eye()[i][j]) for i in range(4) for j in range(4)) > 1e-6
        if far:
            ctx.check(T() != t and not (T() == t) and not t.is_identity(), 'identity', '*'.join(name))
    else:
        ctx.check(t.is_identity(), 'identity', 'empty chain')
        # the least motion is still a motion
        for k in (1e-9, -1e-7, 3e-6):
            for q in (T.translate(V((k, 0, 0))), T.translate(V((0, 0, k))), T.scale(1. + k, 1., 1.), T.scale(1., 1., 1. + k), T.rotate(k * 1e3, V((0, 1, 0)))):
                ctx.check(not q.is_identity() and q != T(), 'near-identity', 'a motion by %r passes for none' % k)
    if affine:
        try:
            arr = np.array([1., 2., 3.])
            ctx.close(t(arr, dtype=Point), m_pt(ms, (1, 2, 3)), 'arr-point', 'plain array as point')
            ctx.close(t(arr, dtype=Vector), m_vec(ms, (1, 2, 3)), 'arr-vector', 'plain array as vector')
            ctx.close(t(arr, dtype=Normal), m_nrm(ms, (1, 2, 3)), 'arr-normal', 'plain array as normal')
        except TypeError:
            ctx.fail('arr', 'plain arrays rejected')
    ctx.trace()


def oblique(ctx):
    t = T.rotate(180., V((1, 1, 1)))
    g = t(BBox(Pt((0, 0, 0)), Pt((1, 1, 1))))
    c = m_pt(m_rotate(180, (1, 1, 1)), (1, 0, 0))
    ctx.check(all(g.pMin[i] <= c[i] + 1e-9 and c[i] - 1e-9 <= g.pMax[i] for i in range(3)), 'box-oblique',
              'mapped corner %r outside mapped box %r..%r' % (c, L(g.pMin), L(g.pMax)))


def RUN(case, ctx):
    if 'oblique' in case:
        return oblique(ctx)
    ch = case['chain']
    one(ctx, ch)
    if len(ch) == 1 and ALPHA[ch[0]][0].startswith('LA'):
        la = LA1 if ALPHA[ch[0]][0] == 'LA1' else LA2
        t = ALPHA[ch[0]][1]()
        ctx.close(t(Pt((0, 0, 0))), la[0], 'look-origin', 'look-at maps the origin to the eye')
        ctx.close(t(V((0, 0, 1))), unit(sub(la[1], la[0])), 'look-axis', 'look-at maps the viewing axis to the target direction')
    if case.get('deep', 0) >= 1:
        for k in range(len(ALPHA)):
            one(ctx, ch + [k])
            if case['deep'] >= 2:
                for l in (0, 2, 5, 7, 8, 9, 10, 14):
                    one(ctx, ch + [k, l])
