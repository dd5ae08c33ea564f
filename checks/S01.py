"""S01: shapes report exactly their nearest ray hit."""
from mc.pt import *
from mc import shapes as sh

RULE = ('every catalogue shape x placement x orientation flag x lattice ray x parameter interval (whole, and cut before, between and after the crossings), full and occlusion query; '
        'alpha-masked triangles with every mask value; distinct states are decided (shape, placement, ray, interval) queries')
ASSUME = ['crossings within 1e-4 of a silhouette, clipping edge or interval end (relative to the shape) are left undecided']
TOL = 1e-4


def CASES(tier):
    cs = []
    pl = list(sh.PLACE)
    for i, n in enumerate(sh.NAMES):
        for j, p in enumerate(pl):
            if tier == 'quick' and p in ('move', 'mirrot') and (i + j) % 2:
                continue
            cs.append(dict(k='shape', s=n, p=p, ro=(i + j) % 2, sub=(2, (i + j) % 2) if tier == 'quick' else (1, 0)))
    cs.append(dict(k='alpha'))
    return cs


def decide(ref, o, d, lo, hi):
    """nearest crossing in [lo, hi]: t, None for a miss, or 'open' when it is too close to call"""
    rs, sil = ref.roots(o, d)
    if sil < TOL:
        return 'open'
    span = norm(d)
    for t, e, inside in rs:
        eps = TOL * getattr(ref, 'r', 1.) / span
        near = abs(t - lo) < eps or abs(t - hi) < eps
        if t < lo and not near or t > hi and not near:
            continue
        if e < TOL or (inside and near):
            return 'open'
        if inside:
            return t
    return None


def one(shape, ref, pl, o, d, lo, hi, ctx, tag):
    T, Ti, m, mi = pl
    want = decide(ref, o, d, lo, hi)
    if want == 'open':
        ctx.skip()
        return None
    wo, wd = m_pt(m, o), m_vec(m, d)
    r = geo.Ray(Pt(wo), V(wd), float(lo), float(hi), 2, .5)
    ro, rd = r.o.copy(), r.d.copy()
    hit, t, eps, dg = shape.intersect(r)
    hp = shape.intersect_p(r)
    where = '%s ray o=%r d=%r [%r, %r]' % (tag, wo, wd, lo, hi)
    ctx.check(L(r.o) == L(ro) and L(r.d) == L(rd) and (r.mint, r.maxt, r.depth, r.time) == (lo, hi, 2, .5), 'ray-modified', where)
    ctx.check(bool(hit) == (want is not None), 'hit', '%s: hit=%r, want t=%r' % (where, hit, want))
    ctx.check(bool(hp) == bool(hit), 'occlusion', '%s: occlusion says %r, the full query %r' % (where, hp, hit))
    ctx.check(isinstance(bool(hp), bool) and np.ndim(hp) == 0, 'occlusion-type', where)
    ctx.state(tag, o, d, lo, hi)
    if hit and want is not None:
        ctx.close(t, want, 'parameter', where, tol=1e-6)
        size = norm([m[i][0] for i in range(3)]) + norm([m[i][1] for i in range(3)]) + norm([m[i][2] for i in range(3)])
        q = add(wo, mul(wd, want))
        ctx.check(norm(sub(L(dg.p), q)) <= 1e-4 * size, 'hit-point', '%s: %r, want %r' % (where, L(dg.p), q))
        ctx.check(dg.shape is shape, 'hit-shape', where)
        ctx.check(eps >= 0. or t < 0., 'epsilon', where)
    return want


def RUN(case, ctx):
    if case['k'] == 'alpha':
        return alpha(ctx)
    ref = sh.reference(case['s'])
    pl = sh.place(case['p'])
    shape = ref.make(pl[0], pl[1], bool(case['ro']))
    tag = '%s/%s/ro=%d' % (case['s'], case['p'], case['ro'])
    ctx.check(shape.can_intersect(), 'can-intersect', tag)
    step, off = case['sub']
    for i, (o, d) in enumerate(sh.rays()):
        if (i * 7 // 2) % step != off and i % 5:
            continue
        one(shape, ref, pl, o, d, 0., INF, ctx, tag)
        # the length of the direction is only the unit of the parameter
        if i % 3 == 1:
            one(shape, ref, pl, o, mul(d, (1e-7, 1e-4, 1e5)[i // 3 % 3]), 0., INF, ctx, tag)
        ts = [t for t, e, inside in ref.roots(o, d)[0]]
        cuts = [(-INF, INF)] if i % 4 == 0 else []
        if ts:
            lo, hi = min(ts), max(ts)
            gap = (hi - lo) or 1. / norm(d)
            mid = .5 * (lo + hi)
            menu = [(mid + (0. if hi > lo else .01 * gap), INF), (-3. * gap + lo, mid - (0. if hi > lo else .01 * gap)), (lo + .1 * gap, hi - .1 * gap if hi > lo else lo + gap),
                    (hi + .1 * gap, INF), (lo - gap, hi + gap), (lo - gap, lo - .1 * gap)]
            cuts += menu if i % 3 == 0 else [menu[i % 6]]
        else:
            cuts += [(.25, 2.)] if i % 3 == 0 else []
        for a, b in cuts:
            if a < b:
                one(shape, ref, pl, o, d, a, b, ctx, tag)
    ctx.outcome(case['s'])
    ctx.trace()
    ctx.sample(case)


def alpha(ctx):
    """a fully transparent point of a masked triangle is not hit"""
    from pytracer.texture import ConstantTexture
    import pytracer.texture as tx

    class Half(tx.Texture):
        def __call__(self, dg):
            return 0. if dg.u < .5 else 1.
    for name in ('std', 'uv', 'side'):
        for p in ('id', 'spin', 'mirror'):
            pl = sh.place(p)
            for kind in ('zero', 'one', 'tiny', 'half'):
                ref = sh.reference('tri:' + name)
                tex = Half() if kind == 'half' else ConstantTexture(dict(zero=0., one=1., tiny=.01)[kind])
                shape = ref.make(pl[0], pl[1], False, atex=tex)
                for o, d in sh.rays()[::3]:
                    want = decide(ref, o, d, 0., INF)
                    if want in ('open', None):
                        continue
                    q = add(o, mul(d, want))
                    w = ref.bary(q)
                    u = sum(a * b[0] for a, b in zip(w, ref.uvs()))
                    if kind == 'half' and abs(u - .5) < 1e-3:
                        continue
                    solid = dict(zero=False, one=True, tiny=True, half=u >= .5)[kind]
                    r = geo.Ray(Pt(m_pt(pl[2], o)), V(m_vec(pl[2], d)))
                    hit = shape.intersect(r)[0]
                    ctx.check(bool(hit) == solid, 'alpha', '%s %s mask %s at u=%r: hit=%r' % (name, p, kind, u, hit))
                    ctx.check(bool(shape.intersect_p(r)) == solid, 'alpha-occlusion', '%s %s mask %s at u=%r' % (name, p, kind, u))
                    ctx.state('alpha', name, p, kind, o, d)
    ctx.trace()
