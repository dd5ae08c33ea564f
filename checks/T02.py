"""T02: procedural textures, noise, texture mappings and pixel footprints."""
import itertools
from mc.pt import *
from mc import shapes as sh
from pytracer import Spectrum, FLOAT
from pytracer.data.noise import NOISE_PERM
import pytracer.texture.texture as tx
import pytracer.texture.texturemap as tm
import pytracer.texture.utility as tu

RULE = ('every texture tree of depth two over an alphabet of leaves x every surface point and footprint of a lattice of both signs; noise at every lattice, quarter and cell-border point of a block of cells and around the period; '
        'octave sums x footprint x octaves x roughness; every mapping x placement x lattice point x footprint; every tangent frame x pair of offset rays; states are (texture, mapping or frame; point; footprint)')
ASSUME = ['the antialiased checkerboard may settle for an even blend once its footprint is wider than one cell', 'derivatives of angular mappings are compared for footprints small against the distance to the axis, and not on the axis itself',
          'points within 1e-9 of the border of a dot are left out']
PERM = [int(x) for x in NOISE_PERM]


# ---------------------------------------------------------------- reference
def fl(x):
    return int(math.floor(x))


def rnoise(p):
    c = [fl(x) for x in p]
    d = [x - i for x, i in zip(p, c)]
    w = [x ** 3 * (10 - 15 * x + 6 * x * x) for x in d]
    tot = 0.
    for k in itertools.product((0, 1), repeat=3):
        i = [(a & 255) + b for a, b in zip(c, k)]
        h = PERM[PERM[PERM[i[0]] + i[1]] + i[2]] & 15
        x, y, z = [a - b for a, b in zip(d, k)]
        u = x if h < 8 or h in (12, 13) else y
        v = y if h < 4 or h in (12, 13) else z
        g = (-u if h & 1 else u) + (-v if h & 2 else v)
        for a, b in zip(w, k):
            g *= a if b else 1 - a
        tot += g
    return tot


def rsum(p, a, b, omega, n, f=lambda x: x):
    s2 = max(dot(a, a), dot(b, b))
    k = float(n) if s2 == 0 else min(float(n), max(0., 1 - .5 * math.log(s2, 2)))
    i, acc, lam, om = 0, 0., 1., 1.
    for i in range(fl(k)):
        acc += om * f(rnoise(mul(p, lam)))
        lam *= 1.99
        om *= omega
    x = min(max((k - fl(k) - .3) / .4, 0.), 1.)
    return acc + om * x * x * (3 - 2 * x) * f(rnoise(mul(p, lam)))


def rfbm(p, a, b, omega, n):
    return rsum(p, a, b, omega, n)


def rturb(p, a, b, omega, n):
    return rsum(p, a, b, omega, n, abs)


MARBLE = [(.58, .58, .6), (.58, .58, .6), (.58, .58, .6), (.5, .5, .5), (.6, .59, .58), (.58, .58, .6), (.58, .58, .6), (.2, .2, .33), (.58, .58, .6)]


def rmarble(p, a, b, octs, rough, scale, var):
    p = mul(p, scale)
    m = p[1] + var * rfbm(p, mul(a, scale), mul(b, scale), rough, octs)
    t = .5 + .5 * math.sin(m)
    f = min(fl(t * 6), 5)
    t = t * 6 - f
    q = [list(MARBLE[f + i]) for i in range(4)]
    while len(q) > 1:
        q = [add(mul(x, 1 - t), mul(y, t)) for x, y in zip(q, q[1:])]
    return mul(q[0], 1.5)


# ---------------------------------------------------------------- surface points
class Pnt(object):
    """a surface point: position, (u, v), and their screen derivatives"""
    def __init__(self, p, uv=(0., 0.), duv=(0., 0., 0., 0.), dpdx=(0., 0., 0.), dpdy=(0., 0., 0.)):
        self.p, self.u, self.v = list(p), uv[0], uv[1]
        self.duv, self.dpdx, self.dpdy = duv, list(dpdx), list(dpdy)
        g = geo.DifferentialGeometry(Pt(p), V((1., 0., .2)), V((0., 1., .1)), Nm((0., 0., .1)), Nm((.1, 0., 0.)), uv[0], uv[1], None)
        g.dudx, g.dvdx, g.dudy, g.dvdy = duv
        g.dpdx, g.dpdy = V(dpdx), V(dpdy)
        self.dg = g
        self.snap = self.state()

    def state(self):
        g = self.dg
        return [L(x) for x in (g.p, g.dpdu, g.dpdv, g.dndu, g.dndv, g.nn, g.dpdx, g.dpdy)] + [float(x) for x in (g.u, g.v, g.dudx, g.dvdx, g.dudy, g.dvdy)]


XS = [-2.5, -2., -1.3, -1., -.75, -.5, -.25, 0., .2, .5, .8, 1., 1.5, 2., 2.7]
FEET = [(0., 0., 0., 0.), (.1, .05, 0., .2), (.3, 0., .1, 0.), (0., -.4, 0., .2), (-.6, .1, .3, -.7), (1., 1., 0., 0.), (0., .2, 2., 0.)]
C1, C2, C3, C4 = (.2, .5, .9), (1., 0., .3), (.1, .1, .1), (0., .8, .4)


def pts(q, fine=False):
    xs = XS if not q else XS[::2]
    out = []
    for i, (x, y) in enumerate(itertools.product(xs, xs)):
        for j, f in enumerate(FEET if fine else FEET[:3]):
            z = XS[(i * 7 + j) % len(XS)] + .1
            out.append(Pnt((x, y, z), (x, y), f, (.3 * f[0], .2, -f[1]), (f[2], .5 * f[3], .1)))
    return out


# ---------------------------------------------------------------- textures with references
class T(object):
    def __init__(self, name, real, ref):
        self.name, self.real, self.ref = name, real, ref


def S3(x):
    return x if isinstance(x, (list, tuple)) else [x] * 3


def uvmap(su=1., sv=1., du=0., dv=0.):
    return tm.UVMapping2D(su, sv, du, dv), lambda g: (su * g.u + du, sv * g.v + dv, su * g.duv[0], sv * g.duv[1], su * g.duv[2], sv * g.duv[3])


def idmap(pl='id'):
    t, ti, m, mi = sh.place(pl)
    lin = [r[:3] for r in mi[:3]]
    return tm.IdentityMapping3D(ti), lambda g: ([dot(r, g.p) + mi[i][3] for i, r in enumerate(lin)], [dot(r, g.dpdx) for r in lin], [dot(r, g.dpdy) for r in lin])


def const(c):
    return T('const%r' % (c,), tx.ConstantTexture(Spectrum.from_rgb(list(c)) if isinstance(c, tuple) else FLOAT(c)), lambda g: list(c) if isinstance(c, tuple) else c)


def bilerp(m, c):
    f = lambda g: m[1](g)[:2]
    vs = [Spectrum.from_rgb(list(x)) if isinstance(x, tuple) else FLOAT(x) for x in c]

    def ref(g):
        s, t = f(g)
        w = [(1 - s) * (1 - t), (1 - s) * t, s * (1 - t), s * t]
        if isinstance(c[0], tuple):
            return [sum(a * x[k] for a, x in zip(w, c)) for k in range(3)]
        return sum(a * x for a, x in zip(w, c))
    return T('bilerp', tx.BilerpTexture(m[0], *vs), ref)


def uvtex(m):
    return T('uv', tx.UVTexture(m[0]), lambda g: [m[1](g)[0] - fl(m[1](g)[0]), m[1](g)[1] - fl(m[1](g)[1]), 0.])


def blend(a, b, k):
    a, b = a, b
    if isinstance(a, list) or isinstance(b, list):
        return add(mul(S3(a), 1 - k), mul(S3(b), k))
    return (1 - k) * a + k * b


def odd(a, b):
    """share of the odd cells in [a, b]"""
    f = lambda x: fl(x / 2.) + max(x - 2. * fl(x / 2.) - 1., 0.)
    return fl(a) % 2 if a == b else (f(b) - f(a)) / (b - a)


def checker(m, a, b, aa):
    def ref(g):
        s, t, sx, tx_, sy, ty = m[1](g)
        pick = b if (fl(s) + fl(t)) % 2 else a
        if aa == 'none':
            return pick.ref(g)
        ds, dt = max(abs(sx), abs(sy)), max(abs(tx_), abs(ty))
        if fl(s - ds) == fl(s + ds) and fl(t - dt) == fl(t + dt):
            return pick.ref(g)
        if ds > 1 or dt > 1:
            return blend(a.ref(g), b.ref(g), .5)
        u, v = odd(s - ds, s + ds), odd(t - dt, t + dt)
        return blend(a.ref(g), b.ref(g), u + v - 2 * u * v)
    return T('checker-%s(%s, %s)' % (aa, a.name, b.name), tx.Chekcerboard2DTexture(m[0], a.real, b.real, aa), ref)


def checker3(m, a, b):
    return T('checker3(%s, %s)' % (a.name, b.name), tx.Checkboard3DTexture(m[0], a.real, b.real), lambda g: (b if sum(fl(x) for x in m[1](g)[0]) % 2 else a).ref(g))


def scale(a, b):
    def ref(g):
        x, y = a.ref(g), b.ref(g)
        return [p * q for p, q in zip(S3(x), S3(y))] if isinstance(x, list) or isinstance(y, list) else x * y
    return T('scale(%s, %s)' % (a.name, b.name), tx.ScaleTexture(a.real, b.real), ref)


def mix(a, b, k):
    return T('mix(%s, %s, %s)' % (a.name, b.name, k.name), tx.MixTexture(a.real, b.real, k.real), lambda g: blend(a.ref(g), b.ref(g), k.ref(g)))


def dots(m, a, b):
    def ref(g):
        s, t = m[1](g)[:2]
        i, j = fl(s + .5), fl(t + .5)
        if rnoise([i + .5, j + .5, .5]) > 0:
            x = i + .15 * rnoise([i + 1.5, j + 2.8, .5])
            y = j + .15 * rnoise([i + 4.5, j + 9.8, .5])
            r = (s - x) ** 2 + (t - y) ** 2 - .35 ** 2
            if abs(r) < 1e-9:
                return None
            if r < 0:
                return a.ref(g)
        return b.ref(g)
    return T('dots(%s, %s)' % (a.name, b.name), tx.DotsTexture(m[0], a.real, b.real), ref)


def leaves():
    u, w = uvmap(), uvmap(2., -.5, .25, 1.)
    return [const(C1), const(C2), const(.25), bilerp(u, [C1, C2, C3, C4]), bilerp(w, [1., 2., -1., .5]), uvtex(w)]


AMT = [0., .25, 1.]


def inner():
    lv = leaves()
    u, w = uvmap(), uvmap(2., -.5, .25, 1.)
    a, b, c, d, e, f = lv
    out = list(lv)
    out += [scale(a, d), scale(c, e), scale(e, f), scale(d, c)]
    out += [mix(a, b, const(k)) for k in AMT] + [mix(d, f, e), mix(c, e, c), mix(a, f, const(.6))]
    out += [checker(m, x, y, aa) for m in (u, w) for x, y in ((a, b), (d, f)) for aa in ('none', 'closedform')]
    out += [checker3(idmap(), a, b), checker3(idmap('spin'), d, c), dots(u, a, b), dots(w, d, c)]
    return out


def outer(i, j):
    """the trees of depth two over two inner ones"""
    x, y = inner()[i], inner()[j]
    u, w = uvmap(), uvmap(2., -.5, .25, 1.)
    return [scale(x, y), mix(x, y, const(.25)), mix(x, y, leaves()[4]), checker(w, x, y, 'none'), checker(u, x, y, 'closedform'), checker3(idmap('skew'), x, y), dots(u, x, y)]


NIN = 28
NOISY = ['fbm', 'wrinkled', 'windy', 'marble']
FOOT = [(0., 0., 0.), (.01, 0., 0.), (.2, .1, 0.), (0., .5, 0.), (.4, .4, .4), (0., 0., .8), (1., 0., 0.), (0., -1.2, 0.), (1.4, .1, 0.), (2., 0., 0.), (0., 2.6, 0.), (3., 3., 0.), (0., 0., 20.)]
PL = ('id', 'move', 'spin', 'mirror', 'grow', 'skew', 'shrink')


def CASES(tier):
    q = tier == 'quick'
    cs = [dict(k='leaf', i=i, q=int(q)) for i in range(NIN)]
    prs = list(itertools.product(range(NIN), range(NIN)))
    cs += [dict(k='tree', i=i, j=j, q=int(q)) for n, (i, j) in enumerate(prs) if not q or (i * 3 + j) % 4 == 0]
    cs += [dict(k='noise', x=x, y=y, q=int(q)) for x in range(-2, 3) for y in range(-2, 3)]
    cs.append(dict(k='smooth'))
    for n in NOISY:
        for pl in PL if not q else PL[::2]:
            for a in range(len(FOOT)):
                cs.append(dict(k='noisy', n=n, pl=pl, a=a, q=int(q)))
    for m in ('sphere', 'cylinder', 'plane', 'identity', 'uv'):
        for pl in PL:
            cs.append(dict(k='map', m=m, pl=pl, q=int(q)))
    cs += [dict(k='foot', f=i, q=int(q)) for i in range(len(FRAMES))]
    return cs


def eval_on(t, ps, ctx, tag, tol=1e-6):
    for g in ps:
        want = t.ref(g)
        if want is None:
            ctx.skip()
            continue
        got = t.real(g.dg)
        isl = isinstance(want, list)
        gl = L(np.ravel(got))
        ctx.check(len(gl) == (3 if isl else 1), 'kind', '%s: %r' % (tag, got))
        ctx.close(gl, want if isl else [want], 'texture', '%s at uv %r p %r footprint %r' % (tag, (g.u, g.v), g.p, g.duv), tol=tol)
        ctx.check(g.state() == g.snap, 'point-changed', tag)
        ctx.state(tag, g.p, g.u, g.v, g.duv, g.dpdx)
        ctx.step()


def run_leaf(case, ctx):
    t = inner()[case['i']]
    eval_on(t, pts(case['q'], True), ctx, t.name)
    ctx.trace()
    ctx.sample(dict(case, name=t.name))


def run_tree(case, ctx):
    ps = pts(1)[::7 if case['q'] else 3]
    for t in outer(case['i'], case['j']):
        eval_on(t, ps, ctx, t.name)
        ctx.trace()


def run_noise(case, ctx):
    n = tu.noise
    cx, cy = case['x'], case['y']
    fr = (0., .25, .5, .8)
    prev = None
    for z in (-2, -1, 0, 1):
        ctx.close(float(n(Pt((cx, cy, z)))), 0., 'noise-lattice', '%r' % ((cx, cy, z),))
        for f in itertools.product(fr, fr, fr):
            p = [cx + f[0], cy + f[1], z + f[2]]
            v = float(n(Pt(p)))
            ctx.close(v, rnoise(p), 'noise', '%r' % p, tol=1e-9)
            ctx.check(abs(v) <= 1.05, 'noise-range', '%r: %r' % (p, v))
            for k in ((256., 0., 0.), (0., -256., 0.), (0., 0., 512.)):
                ctx.close(float(n(Pt(add(p, k)))), v, 'noise-period', '%r + %r' % (p, k), tol=1e-9)
            ctx.state('noise', p, v)
            ctx.step()
            # across each border of the cell
            for a in range(3):
                if f[a] == 0.:
                    lo, hi = list(p), list(p)
                    lo[a] -= 1e-9
                    hi[a] += 1e-9
                    ctx.close(float(n(Pt(lo))), float(n(Pt(hi))), 'noise-jump', 'at %r across axis %d' % (p, a), tol=1e-7)
    # the cell where the table starts over
    for f in itertools.product(fr, fr):
        p = [255. + f[0], cy + f[1], 255.25]
        ctx.close(float(n(Pt(p))), rnoise(p), 'noise', '%r' % p, tol=1e-9)
        ctx.close(float(n(Pt((256. - 1e-9, p[1], p[2])))), float(n(Pt((256. + 1e-9, p[1], p[2])))), 'noise-jump', '%r' % p, tol=1e-7)
    ctx.trace()
    ctx.sample(case)


def run_smooth(case, ctx):
    for lo, hi in ((0., 1.), (.3, .7), (-2., 3.), (5., 5.5)):
        prev = -1.
        for i in range(-10, 51):
            x = lo + (hi - lo) * i / 40.
            v = float(tu.smooth_step(lo, hi, x))
            y = min(max(i / 40., 0.), 1.)
            ctx.close(v, y * y * (3 - 2 * y), 'smooth-step', '%r in %r' % (x, (lo, hi)), tol=1e-9)
            ctx.check(v >= prev, 'smooth-step', 'not monotone at %r in %r' % (x, (lo, hi)))
            prev = v
            ctx.state('smooth', lo, i)
    ctx.trace()


def run_noisy(case, ctx):
    m = idmap(case['pl'])
    a = FOOT[case['a']]
    xs = [-1.7, -.4, 0., .6, 2.3] if not case['q'] else [-1.7, .6, 1.]
    bs = FOOT if not case['q'] else FOOT[case['a'] % 3::3]
    pr = [(1, .5), (3, .5), (6, .7), (4, 0.), (0, .5)]
    if case['n'] == 'fbm':
        mk = [T('fbm%r' % (o,), tx.FBmTexture(o[0], o[1], m[0]), lambda g, o=o: rfbm(*(m[1](g) + (o[1], o[0])))) for o in pr]
    elif case['n'] == 'wrinkled':
        mk = [T('wrinkled%r' % (o,), tx.WrinkledTexture(o[0], o[1], m[0]), lambda g, o=o: rturb(*(m[1](g) + (o[1], o[0])))) for o in pr]
    elif case['n'] == 'windy':
        mk = [T('windy', tx.WindyTexture(m[0]), lambda g: abs(rfbm(*([mul(x, .1) for x in m[1](g)] + [.5, 3]))) * rfbm(*(m[1](g) + (.5, 6))))]
    else:
        mk = [T('marble%r' % (o,), tx.MarbleTexture(o[0], o[1], o[2], o[3], m[0]), lambda g, o=o: rmarble(*(m[1](g) + o))) for o in ((3, .5, 1., .2), (2, .6, 2.5, 0.), (4, .5, -.3, 3.))]
    for b in bs:
        ps = [Pnt(p, dpdx=a, dpdy=b) for p in itertools.product(xs, xs, xs)][::2]
        for t in mk:
            eval_on(t, ps, ctx, t.name + ' ' + case['pl'], tol=1e-6)
    # widening the footprint never makes a sum of octaves jump
    if case['n'] in ('fbm', 'wrinkled') and case['pl'] == 'id':
        f = tu.FBm if case['n'] == 'fbm' else tu.turbulence
        for p in ((.3, .6, -.2), (-1.7, 2.4, .1)):
            for n, o in pr:
                for k in range(0, n + 3):
                    w = 2. ** (1 - k)
                    got = [float(f(Pt(p), V((w * e, 0., 0.)), V((0., w / 4, 0.)), o, n)) for e in (1 - 1e-9, 1 + 1e-9)]
                    ctx.close(got[0], got[1], 'octaves-jump', '%s n=%d omega=%r at footprint %r' % (case['n'], n, o, w), tol=1e-6)
    ctx.trace()
    ctx.sample(case)


def seam(d):
    return d - 1 if d > .5 else d + 1 if d < -.5 else d


def run_map(case, ctx):
    t, ti, m, mi = sh.place(case['pl'])
    lin = [r[:3] for r in mi[:3]]
    inv = lambda p: [dot(r, p) + mi[i][3] for i, r in enumerate(lin)]
    fwd = lambda q: [sum(m[i][k] * q[k] for k in range(3)) + m[i][3] for i in range(3)]
    kd = case['m']
    xs = [-1.5, -.6, -1e-4, 1e-4, .7, 2.] if not case['q'] else [-.9, 1e-4, -1e-4, 1.6]
    steps = [(1e-3, 0., 0.), (0., 1e-3, 0.), (0., 0., -1e-3), (3e-4, -5e-4, 2e-4), (0., 0., 0.)]
    if kd == 'sphere':
        real = [tm.SphericalMapping2D(ti)]
        ref = lambda q: [math.acos(max(-1., min(1., q[2] / norm(q)))) / math.pi, (math.atan2(q[1], q[0]) % (2 * math.pi)) / (2 * math.pi)]
    elif kd == 'cylinder':
        real = [tm.CylindricalMapping2D(ti)]
        ref = lambda q: [(math.pi + math.atan2(q[1], q[0])) / (2 * math.pi), q[2] / norm(q)]
    elif kd == 'plane':
        par = [((1., 0., 0.), (0., 1., 0.), 0., 0.), ((.3, -.2, 1.), (2., .5, 0.), .25, -1.)]
    elif kd == 'uv':
        par = [(1., 1., 0., 0.), (2., -.5, .25, 1.), (0., 3., -1., 0.)]
    for q in itertools.product(xs, xs, xs):
        p = fwd(q)
        for i, (dx, dy) in enumerate(itertools.product(steps, steps)):
            if kd in ('sphere', 'cylinder'):
                if math.hypot(q[0], q[1]) < .3:
                    ctx.skip()
                    continue
                wx, wy = [sum(m[r][k] * dx[k] for k in range(3)) for r in range(3)], [sum(m[r][k] * dy[k] for k in range(3)) for r in range(3)]
                g = Pnt(p, dpdx=wx, dpdy=wy)
                got = L(real[0](g.dg))
                w = ref(q)
                cyc = 1 if kd == 'sphere' else 0
                ctx.close(got[1 - cyc], w[1 - cyc], 'mapping', '%s %s at %r' % (kd, case['pl'], q), tol=1e-6)
                ctx.close(seam(got[cyc] - w[cyc]), 0., 'mapping', '%s %s at %r' % (kd, case['pl'], q), tol=1e-6)
                ctx.check(-1e-9 <= got[cyc] <= 1 + 1e-9, 'mapping-range', '%s at %r: %r' % (kd, q, got))
                for o, d in ((2, dx), (4, dy)):
                    lo, hi = ref(sub(q, mul(d, .05))), ref(add(q, mul(d, .05)))
                    dd = [(b - a) for a, b in zip(lo, hi)]
                    dd[cyc] = seam(dd[cyc])
                    want = [x * 10. for x in dd]
                    ctx.close([x * 1e3 for x in got[o:o + 2]], [x * 1e3 for x in want], 'mapping-derivative', '%s %s at %r along %r' % (kd, case['pl'], q, d), tol=2e-3)
            else:
                wx, wy = mul(dx, 300.), mul(dy, 700.)
                if kd == 'identity':
                    g = Pnt(p, dpdx=wx, dpdy=wy)
                    got = [L(x) for x in tm.IdentityMapping3D(ti)(g.dg)]
                    want = [list(q), [dot(r, wx) for r in lin], [dot(r, wy) for r in lin]]
                    ctx.close(sum(got, []), sum(want, []), 'mapping', 'identity %s at %r' % (case['pl'], q), tol=1e-6)
                elif kd == 'plane':
                    g = Pnt(p, dpdx=wx, dpdy=wy)
                    for vs, vt, ds, dt in par:
                        got = L(tm.PlannarMapping2D(V(vs), V(vt), ds, dt)(g.dg))
                        ctx.close(got, [ds + dot(p, vs), dt + dot(p, vt), dot(wx, vs), dot(wx, vt), dot(wy, vs), dot(wy, vt)], 'mapping', 'planar at %r' % p, tol=1e-6)
                else:
                    g = Pnt(p, (q[0], q[1]), (wx[0], wx[1], wy[0], wy[2]))
                    for su, sv, du, dv in par:
                        got = L(tm.UVMapping2D(su, sv, du, dv)(g.dg))
                        ctx.close(got, [su * q[0] + du, sv * q[1] + dv, su * wx[0], sv * wx[1], su * wy[0], sv * wy[2]], 'mapping', 'uv %r at %r' % ((su, sv, du, dv), q), tol=1e-9)
            ctx.check(g.state() == g.snap, 'point-changed', kd)
            ctx.state(kd, case['pl'], q, i)
            ctx.step()
        ctx.trace()
    ctx.sample(case)


# ---------------------------------------------------------------- footprints
FRAMES = [((1., 0., 0.), (0., 1., 0.)), ((0., 2., 0.), (0., 0., .5)), ((0., 0., 1.), (3., 0., 0.)), ((1., .5, 0.), (0., 1., 1.)), ((.2, .1, 1.), (1., -1., 0.)), ((1., 1., 1.), (-1., 1., .2)), ((.01, 0., .02), (0., .03, 0.)),
          ((1., 0., 1.), (0., 1., 0.)), ((0., 1., 0.), (1., 0., .99))]


def run_foot(case, ctx):
    du, dv = FRAMES[case['f']]
    n = unit(cross(du, dv))
    ps = [(0., 0., 0.), (.3, -1.2, 2.)]
    off = [(.01, 0., 0.), (0., -.02, .01), (.003, .004, 0.), (0., 0., 0.)]
    for p in ps:
        for d in ((0., 0., 1.), (1., .2, -.3), (-.4, 1., .1), (1., 1., 1.), unit((.9, -.3, -2.))):
            if abs(dot(d, n)) < .15:
                ctx.skip()
                continue
            for back in (1., 4.):
                o = sub(p, mul(d, back))
                for (ox, oy), par in itertools.product(itertools.product(off, off), (0, 1)):
                    r = geo.RayDifferential(Pt(o), V(d), 0., INF)
                    if par:
                        rays = [(add(o, ox), list(d)), (add(o, oy), list(d))]
                    else:
                        rays = [(list(o), add(d, ox)), (add(o, oy), add(d, ox))]
                    r.rxOrigin, r.rxDirection, r.ryOrigin, r.ryDirection = Pt(rays[0][0]), V(rays[0][1]), Pt(rays[1][0]), V(rays[1][1])
                    r.has_differentials = True
                    g = geo.DifferentialGeometry(Pt(p), V(du), V(dv), Nm((0., 0., 0.)), Nm((0., 0., 0.)), .3, .4, None)
                    g.compute_differential(r)
                    want = []
                    for ro, rd in rays:
                        t = dot(sub(p, ro), n) / dot(rd, n)
                        want.append(sub(add(ro, mul(rd, t)), p))
                    ctx.close(L(g.dpdx) + L(g.dpdy), want[0] + want[1], 'footprint', 'p %r frame %r rays %r' % (p, (du, dv), rays), tol=1e-6)
                    # the change of (u, v) reproduces the change of the point
                    sz = max(norm(want[0]), norm(want[1]), 1e-3)
                    for w, a, b in ((want[0], g.dudx, g.dvdx), (want[1], g.dudy, g.dvdy)):
                        ctx.close([x / sz for x in add(mul(du, float(a)), mul(dv, float(b)))], [x / sz for x in w], 'footprint-uv', 'p %r frame %r rays %r' % (p, (du, dv), rays), tol=1e-5)
                    ctx.check(L(g.p) == list(p) and float(g.u) == .3 and float(g.v) == .4, 'point-changed', 'footprint')
                    # a ray without offsets clears them
                    r.has_differentials = False
                    g.compute_differential(r)
                    ctx.check(L(g.dpdx) + L(g.dpdy) + [float(x) for x in (g.dudx, g.dvdx, g.dudy, g.dvdy)] == [0.] * 10, 'footprint-cleared', '')
                    ctx.state('foot', case['f'], p, d, back, ox, oy, par)
                    ctx.step()
    ctx.trace()
    ctx.sample(case)


def RUN(case, ctx):
    return globals()['run_' + case['k']](case, ctx)
