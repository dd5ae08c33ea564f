"""V01: participating media."""
import itertools
from mc.pt import *
from mc import shapes as sh
from mc import scenes as sc
from pytracer import Spectrum
from pytracer.aggregate import GeometricPrimitive, SimpleAggregate
from pytracer.scene import Scene
from pytracer.volume.volume import (HomogeneousVolumeDensity, VolumeGridDensity, ExponentialDensity, AggregateVolume)
from pytracer.volume.utility import (phase_isotrophic, phase_rayleigh, phase_mie_hazy, phase_mie_murky, phase_hg, phase_schlick, get_volume_scattering)

RULE = ('every medium (kind, extent, grid, coefficients) x placement x lattice point, time and direction; every lattice ray x interval x step against the reference thickness, cut at every inner border; '
        'every collection of up to three media; every phase function x asymmetry x pair of directions of a grid with its integral over the sphere; states are (medium, placement, point or ray)')
ASSUME = ['points and rays within 1e-6 of the border of an extent are left out', 'marched thickness is compared on average over the offsets of the first step, within the resolution of those offsets']
PLACES = ('id', 'move', 'spin', 'mirror', 'grow', 'skew', 'mirskew', 'shrink')
BOX = [((-1., -1., -1.), (1., 1., 1.)), ((0., -.5, .25), (2., .5, 1.))]
SA, SS, LE = (.2, .1, 0.), (.3, 0., .6), (1., 0., .5)
G = .4
GRIDS = [np.array([[[1., 2.], [3., 5.]]]), np.arange(2 * 3 * 4, dtype=float).reshape(4, 3, 2) / 10., np.array([[[.7]]]), np.array([[[0., 1., 0.]], [[2., 0., 1.]]])]
UPS = [((0., 0., 1.), 1., .5), ((0., 2., 0.), .5, 2.), ((1., 1., -1.), 2., 0.)]
KINDS = ['homog', 'empty'] + ['grid%d' % i for i in range(len(GRIDS))] + ['exp%d' % i for i in range(len(UPS))]


def sp(c):
    return Spectrum.from_rgb(list(c))


class Med(object):
    """a real medium and its reference"""
    def __init__(self, kind, b, pl, scale=1.):
        self.kind = kind
        self.lo, self.hi = BOX[b]
        self.t, self.ti, self.m, self.mi = sh.place(pl)
        z = 0. if kind == 'empty' else scale
        self.sa, self.ss, self.le = mul(SA, z), mul(SS, z), mul(LE, scale)
        self.sps = [sp(self.sa), sp(self.ss), sp(self.le)]
        ext = geo.BBox(Pt(self.lo), Pt(self.hi))
        a, s, e = self.sps
        if kind in ('homog', 'empty'):
            self.real = HomogeneousVolumeDensity(a, s, G, e, ext, self.t)
        elif kind[:4] == 'grid':
            self.d = GRIDS[int(kind[4:])]
            own = self.d.copy()
            self.real = VolumeGridDensity(a, s, G, e, ext, self.t, own)
            own[:] = 77.         # the table is the caller's to use again
        else:
            self.up, self.a, self.b = UPS[int(kind[3:])]
            self.real = ExponentialDensity(a, s, G, e, ext, self.t, self.a, self.b, V(self.up))

    def edge(self, q, tol=1e-6):
        return any(min(abs(x - l), abs(x - h)) < tol for x, l, h in zip(q, self.lo, self.hi))

    def dens(self, q):
        """density at a point of the medium's space"""
        if not all(l <= x <= h for x, l, h in zip(q, self.lo, self.hi)):
            return 0.
        if self.kind in ('homog', 'empty'):
            return 1.
        if self.kind[:3] == 'exp':
            return self.a * math.exp(-self.b * dot(sub(q, self.lo), unit(self.up)))
        nz, ny, nx = self.d.shape
        f = [(x - l) / (h - l) * n - .5 for x, l, h, n in zip(q, self.lo, self.hi, (nx, ny, nz))]
        i = [math.floor(x) for x in f]
        out = 0.
        for c in itertools.product((0, 1), repeat=3):
            w = 1.
            ix = []
            for k in range(3):
                w *= f[k] - i[k] if c[k] else 1 - (f[k] - i[k])
                ix.append(min(max(i[k] + c[k], 0), (nx, ny, nz)[k] - 1))
            out += w * float(self.d[ix[2]][ix[1]][ix[0]])
        return out

    def span(self, o, d, mint, maxt):
        """parameters inside; None when missed, 'edge' when grazing"""
        q, w = m_pt(self.mi, o), m_vec(self.mi, d)
        t0, t1 = mint, maxt
        for k in range(3):
            if abs(w[k]) < 1e-12:
                if min(abs(q[k] - self.lo[k]), abs(q[k] - self.hi[k])) < 1e-6:
                    return 'edge'
                if not self.lo[k] < q[k] < self.hi[k]:
                    return None
                continue
            a, b = sorted(((self.lo[k] - q[k]) / w[k], (self.hi[k] - q[k]) / w[k]))
            t0, t1 = max(t0, a), min(t1, b)
        n = norm(w)
        if abs(t1 - t0) * n < 1e-6:
            return 'edge'
        return None if t0 > t1 else (t0, t1)

    def thick(self, o, d, s):
        """line integral of the density over world length"""
        t0, t1 = s
        if self.kind in ('homog', 'empty'):
            return (t1 - t0) * norm(d)
        N = 400
        q, w = m_pt(self.mi, o), m_vec(self.mi, d)
        return sum(self.dens(add(q, mul(w, t0 + (t1 - t0) * (i + .5) / N))) for i in range(N)) / N * (t1 - t0) * norm(d)

    def peak(self):
        return 1. if self.kind in ('homog', 'empty') else float(np.max(self.d)) if self.kind[:4] == 'grid' else self.a


PTS = [p for p in itertools.product((-1.2, -.6, .1, .9, 1.7), (-1.1, -.3, .2, .45), (-.9, .3, .6, 1.3))]
RAYS = [((-3., .1, .4), (1., 0., 0.)), ((.3, .2, .5), (.2, -.3, 1.)), ((3., 3., 3.), (-1., -1., -.8)), ((.4, -4., .6), (0., 2., 0.)), ((5., 5., 0.), (0., 0., 1.)), ((-.5, -.2, 3.), (.3, .1, -.9)),
        ((.2, .1, .35), (-.5, .2, .1)), ((-2., -1.5, -1.), (1., .8, .7))]
SPANS = [(0., INF), (0., 1.), (1., 3.), (2.5, 2.75), (0., .01)]


def CASES(tier):
    q = tier == 'quick'
    cs = [dict(k='phase', f=f) for f in range(len(PHASE))]
    for kd in KINDS:
        for b in range(len(BOX)):
            for pl in PLACES:
                cs.append(dict(k='at', kd=kd, b=b, pl=pl))
                cs.append(dict(k='ray', kd=kd, b=b, pl=pl, n=8 if q else 32))
    menu = len(MENU)
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for c in itertools.combinations_with_replacement(range(menu), n):
            cs.append(dict(k='many', c=list(c)))
    cs.append(dict(k='none'))
    cs.append(dict(k='named'))
    return cs


PHASE = [('isotropic', lambda w, p, g: phase_isotrophic(w, p), (0.,), lambda c, g: 1.),
         ('rayleigh', lambda w, p, g: phase_rayleigh(w, p), (0.,), lambda c, g: .75 * (1 + c * c)),
         ('hazy', lambda w, p, g: phase_mie_hazy(w, p), (0.,), lambda c, g: .5 + 4.5 * ((1 + c) / 2) ** 8),
         ('murky', lambda w, p, g: phase_mie_murky(w, p), (0.,), lambda c, g: .5 + 16.5 * ((1 + c) / 2) ** 32),
         ('hg', lambda w, p, g: phase_hg(w, p, g), (-.9, -.5, -.1, 0., .3, .75, .95), lambda c, g: (1 - g * g) / (1 + g * g - 2 * g * c) ** 1.5),
         ('schlick', lambda w, p, g: phase_schlick(w, p, g), (-.8, -.5, 0., .3, .7), None)]


def run_phase(case, ctx):
    name, f, gs, ref = PHASE[case['f']]
    for g in gs:
        N = 4000
        tot = mean = 0.
        w = V((0., 0., 1.))
        for i in range(N):
            u = math.pi * ((i + .5) / N - .5)      # nodes crowd at the two ends, where the lobes are narrow
            c, wt = math.sin(u), math.cos(u) * math.pi / N * 2 * math.pi
            v = float(f(w, V((math.sqrt(1 - c * c), 0., c)), g))
            ctx.check(v >= 0, 'phase-negative', '%s g=%r cos=%r: %r' % (name, g, c, v))
            tot += v * wt
            mean += c * v * wt
        ctx.close(tot, 1., 'phase-normalised', '%s g=%r' % (name, g), tol=1e-4)
        if name == 'hg':
            ctx.close(mean, g, 'phase-asymmetry', 'hg g=%r' % g, tol=1e-4)
        if name == 'schlick':
            ctx.check(abs(mean - g) < .12 and mean * g >= -1e-9, 'phase-asymmetry', 'schlick g=%r: mean cosine %r' % (g, mean))
        dirs = [unit(x) for x in itertools.product((-1., .2, 1.), (-.7, 0., .9), (-.8, .1, 1.))]
        for a in dirs:
            for b in dirs:
                v = float(f(V(a), V(b), g))
                ctx.close(v, float(f(V(b), V(a), g)), 'phase-reciprocal', '%s %r %r' % (name, a, b))
                c = min(1., max(-1., dot(a, b)))
                ctx.close(v, float(f(w, V((math.sqrt(1 - c * c), 0., c)), g)), 'phase-of-angle', '%s %r %r' % (name, a, b), tol=1e-5)
                if ref:
                    ctx.close(v, ref(c, g) / (4 * math.pi), 'phase-value', '%s g=%r cos=%r' % (name, g, c), tol=1e-5)
                ctx.step()
            ctx.state('phase', name, g, a)
        ctx.outcome('phase/' + name)
    ctx.trace()


DW = [V((0., 0., 1.)), V((.6, 0., -.8)), V((-2., 1., .5))]


def run_at(case, ctx):
    m = Med(case['kd'], case['b'], case['pl'])
    r = m.real
    name = '%s box %d %s' % (case['kd'], case['b'], case['pl'])
    wb = r.world_bound()
    for i, q in enumerate(PTS):
        if m.edge(q):
            ctx.skip()
            continue
        p = m_pt(m.m, q)
        d = m.dens(q)
        tag = '%s at %r (inside coordinates %r)' % (name, p, q)
        for tm in (0., .7):
            w = DW[i % 3]
            ctx.close(L(r.sigma_a(Pt(p), w, tm)), mul(m.sa, d), 'absorption', tag)
            ctx.close(L(r.sigma_s(Pt(p), w, tm)), mul(m.ss, d), 'scattering', tag)
            ctx.close(L(r.sigma_t(Pt(p), w, tm)), mul(add(m.sa, m.ss), d), 'attenuation', tag)
            ctx.close(L(r.lve(Pt(p), w, tm)), mul(m.le, d), 'emission', tag)
            a, b = unit([.3, .2 + i % 3, -.4]), unit([-.5, .1, .7])
            if d > 0 or not m.kind[:4] in ('grid', 'exp0', 'exp1', 'exp2'):
                want = float(phase_hg(V(a), V(b), G)) if all(l <= x <= h for x, l, h in zip(q, m.lo, m.hi)) else 0.
                ctx.close(float(r.p(Pt(p), V(a), V(b), tm)), want, 'phase', tag)
            ctx.step()
        if all(l <= x <= h for x, l, h in zip(q, m.lo, m.hi)):
            s = 1e-9 * (1 + norm(p))
            ctx.check(all(l - s <= x <= h + s for x, l, h in zip(p, L(wb.pMin), L(wb.pMax))), 'bound', '%s outside %r %r' % (tag, L(wb.pMin), L(wb.pMax)))
        ctx.state('at', case['kd'], case['b'], case['pl'], q)
        ctx.outcome('at/%s/%s' % (case['kd'][:4], 'inside' if d > 0 else 'outside'))
    # the bound is that of the corners
    cs = [m_pt(m.m, c) for c in itertools.product(*zip(m.lo, m.hi))]
    ctx.close(L(wb.pMin), [min(c[k] for c in cs) for k in range(3)], 'bound', name)
    ctx.close(L(wb.pMax), [max(c[k] for c in cs) for k in range(3)], 'bound', name)
    ctx.check([L(x) for x in m.sps] == [m.sa, m.ss, m.le], 'coefficients-changed', name)
    ctx.trace()


def mean_tau(r, ray, step, n):
    t = [0.] * 3
    for i in range(n):
        t = add(t, L(r.tau(ray(), step, (i + .5) / n)))
    return mul(t, 1. / n)


def run_ray(case, ctx):
    m = Med(case['kd'], case['b'], case['pl'])
    r = m.real
    n = case['n']
    march = m.kind not in ('homog', 'empty')
    name = '%s box %d %s' % (case['kd'], case['b'], case['pl'])
    for i, (o, d) in enumerate(RAYS):
        # given in the medium's space: placed like it
        po, pd = m_pt(m.m, o), m_vec(m.m, d)
        for sp_ in SPANS:
            s = m.span(po, pd, *sp_)
            if s == 'edge':
                ctx.skip()
                continue
            tag = '%s ray %r->%r over %r' % (name, o, d, sp_)

            def ray(a=sp_[0], b=sp_[1]):
                return geo.Ray(Pt(po), V(pd), a, b, 0, .7)
            one = ray()
            hit, t0, t1 = r.intersect_p(one)
            ctx.check(bool(hit) == (s is not None), 'inside-part', '%s: %r, want %r' % (tag, hit, s))
            ctx.check(L(one.o) == L(po) and L(one.d) == L(pd) and (float(one.mint), float(one.maxt)) == sp_, 'ray-changed', tag)
            if s is not None and hit:
                k = norm(pd)
                ctx.close([float(t0) * k, float(t1) * k], [s[0] * k, s[1] * k], 'inside-part', tag)
            want = [0.] * 3 if s is None else mul(add(m.sa, m.ss), m.thick(po, pd, s))
            ln = 0. if s is None else (s[1] - s[0]) * norm(pd)
            if not march:
                got = L(r.tau(ray()))
                ctx.close(got, want, 'thickness', tag, tol=1e-6)
                if s is not None:
                    for f in (.25, .5, .9):
                        c = s[0] + f * (s[1] - s[0])
                        ctx.close(add(L(r.tau(ray(sp_[0], c))), L(r.tau(ray(c, sp_[1])))), got, 'thickness-adds-up', '%s cut at %r' % (tag, c), tol=1e-6)
                        ctx.step()
            else:
                for st in ((.5,) if s is None else (ln / 7.3, ln * 2.)):
                    tau = mean_tau(r, ray, st, n)
                    # an average over n offsets resolves st / n of length at the borders, and the grid's kinks inside
                    err = (st / n + .02 * ln) * m.peak() * max(add(m.sa, m.ss)) + 1e-9
                    ctx.check(all(abs(x - y) <= err for x, y in zip(tau, want)), 'thickness', '%s step %r: %r, want %r' % (tag, st, tau, want))
                    ctx.check(all(x >= 0 for x in tau), 'thickness', tag)
                    ctx.step()
            ctx.state('ray', case['kd'], case['b'], case['pl'], i, sp_)
            ctx.outcome('ray/%s/%s' % (case['kd'][:4], 'miss' if s is None else 'part'))
    ctx.trace()


MENU = [('homog', 0, 'id', 1.), ('homog', 1, 'spin', 2.), ('grid1', 1, 'move', 1.), ('exp1', 0, 'skew', .5), ('homog', 0, 'mirskew', .25)]


def run_many(case, ctx):
    ms = [Med(*MENU[i]) for i in case['c']]
    ag = AggregateVolume([m.real for m in ms])
    name = 'collection %r' % ([MENU[i] for i in case['c']],)
    wb = ag.world_bound()
    bs = [m.real.world_bound() for m in ms]
    for k in range(3):
        ctx.close(L(wb.pMin)[k], min(L(b.pMin)[k] for b in bs), 'bound', name)
        ctx.close(L(wb.pMax)[k], max(L(b.pMax)[k] for b in bs), 'bound', name)
    a, b = V(unit([.3, .2, -.4])), V(unit([-.5, .1, .7]))
    for p in itertools.product((-1., .2, 1.3, 2.4), (-1.1, .15, .6), (-.5, .4, 1.2)):
        qs = [m_pt(m.mi, p) for m in ms]
        if any(m.edge(q) for m, q in zip(ms, qs)):
            ctx.skip()
            continue
        ds = [m.dens(q) for m, q in zip(ms, qs)]
        tot = lambda f: [sum(f(m)[k] * d for m, d in zip(ms, ds)) for k in range(3)]
        tag = '%s at %r' % (name, p)
        ctx.close(L(ag.sigma_a(Pt(p), a, .7)), tot(lambda m: m.sa), 'absorption', tag)
        ctx.close(L(ag.sigma_s(Pt(p), a, .7)), tot(lambda m: m.ss), 'scattering', tag)
        ctx.close(L(ag.sigma_t(Pt(p), a, .7)), tot(lambda m: add(m.sa, m.ss)), 'attenuation', tag)
        ctx.close(L(ag.lve(Pt(p), a, .7)), tot(lambda m: m.le), 'emission', tag)
        # one asymmetry everywhere: the average of the members is that of each
        ctx.close(float(np.sum(ag.p(Pt(p), a, b, .7))), float(phase_hg(a, b, G)) if any(d > 0 for d in ds) else 0., 'phase', tag)
        ctx.state('many', case['c'], p)
        ctx.step()
        ctx.outcome('many/%d' % sum(1 for d in ds if d > 0))
    for o, d in RAYS:
        for sp_ in SPANS[:3]:
            ss = [m.span(o, d, *sp_) for m in ms]
            if 'edge' in ss:
                ctx.skip()
                continue
            tag = '%s ray %r->%r over %r' % (name, o, d, sp_)
            hit, t0, t1 = ag.intersect_p(geo.Ray(Pt(o), V(d), *sp_))
            on = [s for s in ss if s]
            if ctx.check(bool(hit) == bool(on), 'inside-part', tag) and on:
                ctx.close([float(t0), float(t1)], [min(s[0] for s in on), max(s[1] for s in on)], 'inside-part', tag)
            got = L(ag.tau(geo.Ray(Pt(o), V(d), *sp_), .25, .5))
            want = [sum(L(m.real.tau(geo.Ray(Pt(o), V(d), *sp_), .25, .5))[k] for m in ms) for k in range(3)]
            ctx.close(got, want, 'thickness', tag)
            ctx.step()
    # a scene of geometry and media is bounded by both
    ball = sc.ball((4., -3., .5), .5)
    agg = SimpleAggregate([GeometricPrimitive(ball, None, None)], True)
    gb = [L(agg.world_bound().pMin), L(agg.world_bound().pMax)]
    box = Scene(agg, [], ag).world_bound()
    ctx.close(L(box.pMin), [min(x, y) for x, y in zip(gb[0], L(wb.pMin))], 'scene-bound', name)
    ctx.close(L(box.pMax), [max(x, y) for x, y in zip(gb[1], L(wb.pMax))], 'scene-bound', name)
    ctx.check([L(agg.world_bound().pMin), L(agg.world_bound().pMax)] == gb, 'bound-changed', name)
    for m, bb in zip(ms, bs):
        ctx.close(L(m.real.world_bound().pMin), L(bb.pMin), 'bound-changed', name)
        ctx.check([L(x) for x in m.sps] == [m.sa, m.ss, m.le], 'coefficients-changed', name)
    ctx.trace()
    ctx.sample(case)


def run_none(case, ctx):
    ag = AggregateVolume([])
    for p in PTS[::7]:
        a = V((0., 0., 1.))
        for f in (ag.sigma_a, ag.sigma_s, ag.sigma_t, ag.lve):
            ctx.close(L(f(Pt(p), a, 0.)), [0.] * 3, 'nothing', 'empty collection')
        ctx.close(float(np.sum(ag.p(Pt(p), a, a, 0.))), 0., 'nothing', 'empty collection')
        ctx.state('none', p)
    for o, d in RAYS:
        ctx.check(not ag.intersect_p(geo.Ray(Pt(o), V(d)))[0], 'nothing', 'empty collection')
        ctx.close(L(ag.tau(geo.Ray(Pt(o), V(d)))), [0.] * 3, 'nothing', 'empty collection')
    ctx.trace()


# published (Jensen et al. 2001, Narasimhan et al. 2006): absorption, reduced scattering
NAMED = {'Apple': ((.0030, .0034, .046), (2.29, 2.39, 1.97)), 'Marble': ((.0021, .0041, .0071), (2.19, 2.62, 3.)), 'Skin1': ((.032, .17, .48), (.74, .88, 1.01)),
         'Wholemilk': ((.0011, .0024, .014), (2.55, 3.21, 3.77)), 'Ketchup': ((.061, .97, 1.45), (.18, .07, .03)), 'Espresso': ((.166900, .228700, .307800), (.437600, .511500, .604800))}


def run_named(case, ctx):
    for k, (a, s) in sorted(NAMED.items()):
        got = get_volume_scattering(k)
        ctx.close(L(got[0]), a, 'measured-absorption', k)
        ctx.close(L(got[1]), s, 'measured-scattering', k)
        again = get_volume_scattering(k)
        got[0][0] = 9.
        ctx.close(L(get_volume_scattering(k)[0]), a, 'measured-absorption', k + ' after changing an answer')
        ctx.state('named', k)
    ctx.check(list(get_volume_scattering('no such stuff')) == [None, None], 'measured-unknown', '')
    ctx.trace()


def RUN(case, ctx):
    return globals()['run_' + case['k']](case, ctx)
