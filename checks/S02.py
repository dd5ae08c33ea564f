"""S02: hit geometry, bounds and areas follow the surface parametrisation."""
from mc.pt import *
from mc import shapes as sh
from pytracer.geometry import DifferentialGeometry, RayDifferential

RULE = ('every catalogue shape x placement x orientation flag: a complete parameter grid of surface points is hit from both sides and the hit record compared with the analytic parametrisation; '
        'bounds against a fine surface grid; screen-space derivatives for every hit with lattice offset rays; distinct states are (shape, placement, surface point)')
ASSUME = ['normal derivatives are those of the unreversed normal and, like areas, are claimed for rigid (possibly mirrored) placements',
          'parameter points within 1e-3 of a clipping edge or pole are only used for bounds']


def CASES(tier):
    cs = []
    for i, n in enumerate(sh.NAMES):
        for j, p in enumerate(sh.PLACE):
            for ro in (0, 1):
                if tier == 'quick' and (i + j + ro) % 2:
                    continue
                cs.append(dict(s=n, p=p, ro=ro, n=4 if tier == 'quick' else 9))
    # meshes that bring normals of their own
    for i, p in enumerate(('id', 'spin', 'mirror', 'mirskew')):
        for j, t in enumerate(('std', 'uv', 'uvflip', 'side')):
            cs.append(dict(k='corner', p=p, ro=(i + j) % 2, t=t, ns=1 + 2 * (i % 2)))
    return cs


def fd(ref, u, v, h=1e-5):
    du = mul(sub(ref.at(u + h, v), ref.at(u - h, v)), .5 / h)
    dv = mul(sub(ref.at(u, v + h), ref.at(u, v - h)), .5 / h)
    return du, dv


def params(ref, n):
    if ref.kind == 'tri':
        out = []
        for i in range(1, n + 2):
            for j in range(1, n + 2 - i + 1):
                b1, b2 = i / (n + 3.), j / (n + 3.)
                w = (1 - b1 - b2, b1, b2)
                uv = [sum(a * b[k] for a, b in zip(w, ref.uvs())) for k in (0, 1)]
                q = [sum(a * x[k] for a, x in zip(w, ref.v)) for k in range(3)]
                out.append((uv[0], uv[1], q))
        return out
    g = [(i + .37) / n for i in range(n)]
    # a full disk is also looked at close to its centre
    near = [(u, 1 - e, ref.at(u, 1 - e)) for e in (2e-3, 5e-4) for u in g] if ref.kind == 'disk' and ref.ri == 0. else []
    return [(u, v, ref.at(u, v)) for u in g for v in g] + near


def RUN(case, ctx):
    if case.get('k'):
        from checks import S04
        return S04.run_shade(case, ctx)
    ref = sh.reference(case['s'])
    T, Ti, m, mi = sh.place(case['p'])
    ro = bool(case['ro'])
    rigid = case['p'] in sh.RIGID
    mirrored = det3(m) < 0
    shape = ref.make(T, Ti, ro)
    size = max(norm([m[i][k] for i in range(3)]) for k in range(3))
    tag0 = '%s/%s/ro=%d' % (case['s'], case['p'], ro)
    flip = -1. if ro != mirrored else 1.
    if rigid:
        ctx.close(shape.area(), ref.area(), 'area', tag0, tol=1e-9)
    bounds(ref, shape, m, tag0, ctx, case['n'])
    for n, (u, v, q) in enumerate(params(ref, case['n'])):
        nq = ref.normal(q)
        for side in (1., -1.):
            off = [.31 * side, -.12, .23]
            o = add(q, add(mul(nq, .05 * side), mul(off, .02)))
            d = sub(q, o)
            wo, wd = m_pt(m, o), m_vec(m, d)
            tag = '%s at u=%r v=%r side %r' % (tag0, u, v, side)
            r = geo.Ray(Pt(wo), V(wd), 0., INF)
            hit, t, eps, dg = shape.intersect(r)
            if not ctx.check(bool(hit), 'missed', tag):
                continue
            ctx.close(t, 1., 'parameter', tag, tol=1e-4)
            wq = m_pt(m, q)
            ctx.check(norm(sub(L(dg.p), wq)) <= 1e-5 * size * 3, 'position', '%s: %r want %r' % (tag, L(dg.p), wq))
            # coordinates
            if ref.kind != 'tri' or ref.uvsign():
                ctx.check(0. <= dg.u <= 1. and 0. <= dg.v <= 1., 'unit-square', '%s: %r' % (tag, (dg.u, dg.v)))
            ctx.close([dg.u, dg.v], [u, v], 'coordinates', tag, tol=1e-5)
            # tangents
            du, dv = L(dg.dpdu), L(dg.dpdv)
            if ref.kind != 'tri' or ref.uvsign():
                wu, wv = [m_vec(m, x) for x in fd(ref, u, v)]
                sc = max(norm(wu), norm(wv))
                ctx.check(norm(sub(du, wu)) <= 2e-5 * sc and norm(sub(dv, wv)) <= 2e-5 * sc, 'tangents', '%s: dpdu %r want %r, dpdv %r want %r' % (tag, du, wu, dv, wv))
            # normal: unit, perpendicular, flipped exactly by orientation and mirroring
            nn = L(dg.nn)
            ctx.check(type(dg.nn).__name__ == 'Normal' and abs(norm(nn) - 1.) < 1e-9, 'unit-normal', '%s: %r' % (tag, nn))
            ctx.check(abs(dot(nn, du)) < 1e-6 * norm(du) and abs(dot(nn, dv)) < 1e-6 * norm(dv), 'perpendicular', tag)
            c = unit(cross(du, dv))
            ctx.close(nn, mul(c, flip), 'orientation', tag, tol=1e-6)
            s = -1. if ro else 1.
            if ref.kind == 'tri':
                s *= ref.uvsign() or -1.
            if s:
                ctx.close(nn, mul(unit(m_nrm(m, nq)), s), 'surface-normal', tag, tol=1e-5)
            # derivatives of the normal
            if rigid:
                if ref.kind == 'tri':
                    wnu = wnv = [0., 0., 0.]
                else:
                    h = 1e-5
                    wnu = m_vec(m, mul(sub(ref.normal(ref.at(u + h, v)), ref.normal(ref.at(u - h, v))), .5 / h))
                    wnv = m_vec(m, mul(sub(ref.normal(ref.at(u, v + h)), ref.normal(ref.at(u, v - h))), .5 / h))
                nu, nv = L(dg.dndu), L(dg.dndv)
                sc = 1. + norm(wnu) + norm(wnv)
                ctx.check(norm(sub(nu, wnu)) < 2e-5 * sc and norm(sub(nv, wnv)) < 2e-5 * sc, 'normal-derivatives', '%s: %r %r want %r %r' % (tag, nu, nv, wnu, wnv))
            ctx.state(tag0, u, v, side)
            if n % 3 == 0:
                screen(dg, shape, wo, wd, size, tag, ctx, T, n)
    poles(ref, shape, m, tag0, ctx, size)
    ctx.outcome((case['s'], flip))
    ctx.trace()
    ctx.sample(case)


def poles(ref, shape, m, tag, ctx, size):
    """hits where the parametrisation degenerates still have a finite position and a unit normal"""
    if not ref.kind in ('sphere', 'disk') or not ref.full:
        return
    zs = [z for z in (-ref.r, ref.r) if ref.z0 <= z <= ref.z1] if ref.kind == 'sphere' else ([ref.h] if ref.ri == 0. else [])
    for z in zs:
        for s in (.5, -.5):
            o, d = [0., 0., z + s * ref.r], [0., 0., -s * 2.]
            r = geo.Ray(Pt(m_pt(m, o)), V(m_vec(m, d)), 0., INF)
            hit, t, eps, dg = shape.intersect(r)
            where = '%s at its pole z=%r' % (tag, z)
            if ctx.check(bool(hit), 'pole-missed', where):
                v = L(dg.p) + L(dg.nn) + L(dg.dpdu) + L(dg.dpdv) + L(dg.dndu) + L(dg.dndv) + [dg.u, dg.v]
                ctx.check(all(math.isfinite(x) for x in v), 'pole-finite', '%s: %r' % (where, v))
                ctx.check(abs(norm(L(dg.nn)) - 1.) < 1e-6, 'pole-normal', '%s: %r' % (where, L(dg.nn)))
                ctx.check(norm(sub(L(dg.p), m_pt(m, [0., 0., z]))) <= 2e-4 * size * ref.r, 'pole-position', where)
            ctx.state(tag, 'pole', z, s)


def inside(box, p, slack):
    return all(float(box.pMin[i]) - slack <= p[i] <= float(box.pMax[i]) + slack for i in range(3))


def bounds(ref, shape, m, tag, ctx, n):
    ob, wb = shape.object_bound(), shape.world_bound()
    if ref.kind == 'tri':
        pts = list(ref.v) + [q for _, _, q in params(ref, n)]
    else:
        g = [i / (4. * n) for i in range(4 * n + 1)]
        pts = [ref.at(u, v) for u in g for v in g]
    size = max(norm([m[i][k] for i in range(3)]) for k in range(3))
    for q in pts:
        w = m_pt(m, q)
        ctx.check(inside(ob, q, 1e-9), 'object-bound', '%s: %r outside %r %r' % (tag, q, L(ob.pMin), L(ob.pMax)))
        ctx.check(inside(wb, w, 1e-9 * size), 'world-bound', '%s: %r outside %r %r' % (tag, w, L(wb.pMin), L(wb.pMax)))
    # a bound is not unbounded: no wider than twice the sphere around the whole primitive
    ext = 2. * max(norm(q) for q in pts) + (getattr(ref, 'r', 0.)) * 2 + 1e-6
    ctx.check(all(float(ob.pMax[i]) - float(ob.pMin[i]) <= 2. * ext for i in range(3)), 'object-bound-size', tag)


def screen(dg, shape, wo, wd, size, tag, ctx, T, n):
    """dpdx is where the offset ray meets the tangent plane, (dudx, dvdx) its coordinates in the tangents"""
    P, N = L(dg.p), L(dg.nn)
    du, dv = L(dg.dpdu), L(dg.dpdv)
    rd = RayDifferential(Pt(wo), V(wd), 0., INF)
    shift = [(.01, .02, -.015), (-.02, .005, .01), (.0, .0, .0)]
    a, b = shift[n % 3], shift[(n + 1) % 3]
    rd.rxOrigin, rd.ryOrigin = Pt(add(wo, mul(a, size))), Pt(add(wo, mul(b, size)))
    rd.rxDirection, rd.ryDirection = V(add(wd, mul(b, norm(wd)))), V(add(wd, mul(a, norm(wd))))
    ref = {}
    for x, (ro, rdir) in dict(x=(rd.rxOrigin, rd.rxDirection), y=(rd.ryOrigin, rd.ryDirection)).items():
        ro, rdir = L(ro), L(rdir)
        k = dot(N, rdir)
        if abs(k) < .05 * norm(rdir):
            ctx.skip()
            return
        t = dot(N, sub(P, ro)) / k
        ref[x] = sub(add(ro, mul(rdir, t)), P)
    rd.has_differentials = True
    g = DifferentialGeometry(dg.p, dg.dpdu, dg.dpdv, dg.dndu, dg.dndv, dg.u, dg.v, shape)
    g.compute_differential(rd)
    E, F, G = dot(du, du), dot(du, dv), dot(dv, dv)
    det = E * G - F * F
    for x in 'xy':
        dp = L(getattr(g, 'dpd' + x))
        ctx.check(norm(sub(dp, ref[x])) <= 1e-6 * size, 'dpd' + x, '%s: %r want %r' % (tag, dp, ref[x]))
        bu, bv = dot(ref[x], du), dot(ref[x], dv)
        wu, wv = (G * bu - F * bv) / det, (E * bv - F * bu) / det
        ctx.close([getattr(g, 'dud' + x), getattr(g, 'dvd' + x)], [wu, wv], 'dud' + x, tag, tol=1e-5)
    keep = [L(g.dpdx), L(g.dpdy), g.dudx, g.dvdx, g.dudy, g.dvdy, L(g.nn), L(g.p), g.u, g.v]
    # the record used for shading carries all of it (shapes without their own shading normals)
    s = shape.get_shading_geometry(T, g)
    c = g.copy()
    for k, name in ((s, 'shading'), (c, 'copy')):
        got = [L(k.dpdx), L(k.dpdy), k.dudx, k.dvdx, k.dudy, k.dvdy, L(k.nn), L(k.p), k.u, k.v]
        ctx.check(got == keep and k.shape is shape, name + '-record', '%s: %r, want %r' % (tag, got, keep))
    c.p.x += 1.
    c.nn.x += 1.
    c.dpdx.x += 1.
    c.u += 1
    ctx.check([L(g.dpdx), L(g.dpdy), g.dudx, g.dvdx, g.dudy, g.dvdy, L(g.nn), L(g.p), g.u, g.v] == keep, 'copy-shared', tag)
    # a plain ray has no footprint
    rd.has_differentials = False
    g.compute_differential(rd)
    ctx.check([L(g.dpdx), L(g.dpdy), g.dudx, g.dvdx, g.dudy, g.dvdy] == [[0.] * 3, [0.] * 3, 0., 0., 0., 0.], 'no-differentials', tag)
