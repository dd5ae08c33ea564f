"""S03: sampling a shape covers its surface evenly, with the density it reports."""
from mc.pt import *
from mc import shapes as sh

RULE = ('every catalogue shape x rigid placement x orientation: a complete grid over the unit square (with its border) is sampled, placed on the surface, and the Jacobian into area-uniform '
        'coordinates and a cell census are compared with one; every reference point x direction of a lattice for the density; distinct states are (shape, placement, grid point or query)')
ASSUME = ['rigid (possibly mirrored) placements, because area is reported in object units', 'grid points across a seam of the warp are left out of the Jacobian test (not of the census)']
REFS = [(3., .4, .2), (-.5, 2.5, 1.8), (.2, -.1, 2.2), (.05, .1, -.08), (.3, -.2, .25), (-2., -2., -1.5), (0., 0., 5.)]


def CASES(tier):
    cs = []
    for i, n in enumerate(sh.NAMES):
        for j, p in enumerate(sh.RIGID):
            for ro in (0, 1):
                if tier == 'quick' and (i + j + ro) % 2:
                    continue
                cs.append(dict(s=n, p=p, ro=ro, n=12 if tier == 'quick' else 28))
    return cs


def acoord(ref, q):
    if ref.kind == 'tri':
        w = ref.bary(q)
        return w[1], w[2]
    return ref.areacoord(q)


def bins(ref, a, b, k):
    """index of the equal-area bin of a surface point"""
    if ref.kind == 'tri':
        # triangle -> square, area preserving: s = (1-b1)^2 ... first coordinate is the share of area with larger b1
        s = (1. - a) ** 2
        t = b / (1. - a) if a < 1. else 0.
    else:
        s, t = a, b
    f = lambda x: min(k - 1, max(0, int(math.floor(x * k))))
    return f(s), f(t)


def RUN(case, ctx):
    ref = sh.reference(case['s'])
    T, Ti, m, mi = sh.place(case['p'])
    ro = bool(case['ro'])
    shape = ref.make(T, Ti, ro)
    tag0 = '%s/%s/ro=%d' % (case['s'], case['p'], ro)
    n = case['n']
    r0 = getattr(ref, 'r', 1.)
    sgn = -1. if ro else 1.
    if ref.kind == 'tri':
        sgn *= ref.uvsign() or -1.

    def draw(u1, u2, tag):
        p, nn = shape.sample(u1, u2)
        w = L(p)
        q = m_pt(mi, w)
        if ref.kind == 'tri':
            b = ref.bary(q)
            h = dot(ref.normal(q), sub(q, ref.v[0]))
            off = max(abs(h), -min(b))
        else:
            off = ref.off(q)
        ctx.check(len(w) == 3 and off < 1e-7, 'on-surface', '%s: %r is off the surface by %r' % (tag, w, off))
        ctx.check(type(p).__name__ == 'Point' and type(nn).__name__ == 'Normal', 'sample-types', '%s: %s %s' % (tag, type(p), type(nn)))
        if sgn and off < 1e-7:
            ctx.close(L(nn), mul(unit(m_nrm(m, ref.normal(q))), sgn), 'sample-normal', tag, tol=1e-6)
        ctx.check(abs(norm(L(nn)) - 1.) < 1e-9, 'sample-normal-unit', tag)
        return q

    # border and corners land on the surface too
    for u1, u2 in grid((0., .5, 1.), (0., .5, 1.)):
        draw(u1, u2, '%s sample(%r, %r)' % (tag0, u1, u2))
    # area preservation: determinant of (u1, u2) -> area coordinates is one
    h = 1e-5
    det = 1. if ref.kind != 'tri' else .5
    cells = {}
    kb = 3
    for i in range(n):
        for j in range(n):
            u1, u2 = (i + .47) / n, (j + .53) / n
            tag = '%s sample(%r, %r)' % (tag0, u1, u2)
            q = draw(u1, u2, tag)
            c = acoord(ref, q)
            cells[bins(ref, c[0], c[1], kb)] = cells.get(bins(ref, c[0], c[1], kb), 0) + 1
            if (i + j) % 3 == 0:
                a = acoord(ref, draw(u1 + h, u2, tag))
                b = acoord(ref, draw(u1, u2 + h, tag))
                ja = [(a[k] - c[k]) / h for k in (0, 1)]
                jb = [(b[k] - c[k]) / h for k in (0, 1)]
                if max(map(abs, ja + jb)) > 100.:
                    ctx.skip()          # a seam between the two points
                else:
                    J = abs(ja[0] * jb[1] - ja[1] * jb[0])
                    ctx.check(abs(J - det) < 2e-3, 'area-preserving', '%s: Jacobian %r, want %r' % (tag, J, det))
            ctx.state(tag0, u1, u2)
    for b in grid(range(kb), range(kb)):
        share = cells.get(tuple(b), 0) / float(n * n)
        ctx.check(abs(share - 1. / kb ** 2) < .6 * 2. / (kb * n) + .5 / n, 'census', '%s: region %r holds %r of the samples' % (tag0, b, share))
    ctx.close(shape.pdf(Pt((0., 0., 0.))), 1. / ref.area(), 'area-density', tag0, tol=1e-9)
    density(ref, shape, m, mi, tag0, n, ctx)
    ctx.outcome(case['s'])
    ctx.trace()
    ctx.sample(case)


def density(ref, shape, m, mi, tag0, n, ctx):
    from checks.S01 import decide
    cone_kind = ref.kind == 'sphere' and ref.z0 <= -ref.r and ref.z1 >= ref.r and ref.full
    for R in REFS:
        wr = m_pt(m, R)
        dist = norm(R)
        outside = cone_kind and dist > ref.r * 1.001
        if ref.kind == 'sphere' and abs(dist - ref.r) < 1e-3:
            continue
        tag = '%s from %r' % (tag0, R)
        # directions of a lattice: towards surface points, around, and away
        for t in sh.TARGETS + [(9., 0., 0.), (0., -9., 1.), (.2, .3, -9.)]:
            d = sub(t, R)
            if norm(d) < 1e-3:
                continue
            d = unit(d)
            wd = m_vec(m, d)
            hit = decide(ref, R, d, 1e-3, INF)
            if hit == 'open':
                ctx.skip()
                continue
            if hit is None and any(-2e-3 < x[0] < 2e-3 for x in ref.roots(R, d)[0]):
                ctx.skip()
                continue
            got = float(shape.pdf_p(Pt(wr), V(wd)))
            if hit is None:
                want = 0.
            elif outside:
                want = 1. / (2. * math.pi * (1. - math.sqrt(1. - (ref.r / dist) ** 2)))
            else:
                q = add(R, mul(d, hit))
                want = hit * hit / (abs(dot(ref.normal(q), d)) * ref.area())
            ctx.close(got, want, 'density', '%s direction %r' % (tag, wd), tol=1e-5)
            ctx.state(tag, t)
        # sampled towards the reference point: on the surface, and in that direction the shape is hit
        census = []
        for i in range(5):
            for j in range(5):
                u1, u2 = (i + .5) / 5, (j + .5) / 5
                if i == 4 and j == 4:
                    u1, u2 = .999, .31
                p, nn = shape.sample_p(Pt(wr), u1, u2)
                q = m_pt(mi, L(p))
                where = '%s sample_p(%r, %r)' % (tag, u1, u2)
                off = abs(dot(ref.normal(q), sub(q, ref.v[0]))) if ref.kind == 'tri' else ref.off(q)
                if not ctx.check(off < 1e-5, 'sample_p-surface', '%s: %r' % (where, L(p))):
                    continue
                d = sub(q, R)
                if outside:
                    ctx.check(dot(d, q) <= 1e-5, 'sample_p-visible', '%s: %r is on the far side' % (where, L(p)))
                    census.append((u1, u2, unit(d)))
                if norm(d) > 1e-2:
                    if ref.kind == 'sphere' and cone_kind or ref.kind != 'sphere':
                        grazing = abs(dot(ref.normal(q), unit(d))) < 1e-3
                        edge = decide(ref, R, unit(d), 1e-3, INF) == 'open'
                        if not grazing and not edge:
                            ctx.check(float(shape.pdf_p(Pt(wr), V(m_vec(m, unit(d))))) > 0., 'sample_p-density', where)
                ctx.check(abs(norm(L(nn)) - 1.) < 1e-9, 'sample_p-normal', where)
                s = -1. if shape.ro else 1.
                if ref.kind == 'tri':
                    s *= ref.uvsign() or -1.
                if s:
                    ctx.close(L(nn), mul(unit(m_nrm(m, ref.normal(q))), s), 'sample_p-normal', where, tol=1e-4)
                ctx.state(tag, 'to', u1, u2)
        # border of the unit square: in a cone these directions graze the sphere
        for u1, u2 in grid((0., 1.), (0., .1, .2, .3, .45, .5, .65, .7, .85, 1.)):
            p, nn = shape.sample_p(Pt(wr), u1, u2)
            q = m_pt(mi, L(p))
            where = '%s sample_p(%r, %r)' % (tag, u1, u2)
            off = abs(dot(ref.normal(q), sub(q, ref.v[0]))) if ref.kind == 'tri' else ref.off(q)
            ctx.check(off < 1e-5, 'sample_p-surface', '%s: %r off by %r' % (where, L(p), off))
            ctx.check(abs(norm(L(nn)) - 1.) < 1e-9, 'sample_p-normal', where)
            if outside:
                ctx.check(dot(sub(q, R), q) <= 1e-5, 'sample_p-visible', '%s: %r is on the far side' % (where, L(p)))
        if outside:
            # uniform in solid angle inside the subtended cone
            cmax = math.sqrt(1. - (ref.r / dist) ** 2)
            axis = unit(mul(R, -1.))
            h = 1e-4
            for u1, u2, d in census[:-1:3]:
                ds = []
                for a, b in ((u1 + h, u2), (u1, u2 + h)):
                    if a >= 1.:
                        break
                    q = m_pt(mi, L(shape.sample_p(Pt(wr), a, b)[0]))
                    ds.append(mul(sub(unit(sub(q, R)), d), 1. / h))
                if len(ds) < 2:
                    continue
                ctx.check(dot(d, axis) >= cmax - 1e-6, 'cone', tag)
                solid = norm(cross(ds[0], ds[1]))
                want = 2. * math.pi * (1. - cmax)
                ctx.check(abs(solid - want) < .02 * want, 'cone-uniform', '%s sample_p(%r, %r): solid angle per unit area %r, want %r' % (tag, u1, u2, solid, want))
