"""B05: measured surfaces."""
import itertools
import os
import shutil
import tempfile
from mc.pt import *
import pytracer
from pytracer import Spectrum, KdTree
from pytracer.reflection.bdf.measured import IrIsotropicBRDF, IrIsotropicBRDFSample, ReHalfangleBRDF
from pytracer.reflection.bsdf import BSDF, BSDFSample
from pytracer.reflection import BDFType
from pytracer.spectral.spectrum import SampledSpectrum
from pytracer.material import MeasuredMaterial
from pytracer.geometry import DifferentialGeometry
SampledSpectrum.init()

RULE = ('every ordered pair of directions of a spherical grid (poles, equal, mirrored, grazing, below the surface) x scattered sample sets of one to nine samples x tabulated cell counts, against brute force; '
        'every history of up to three loads over four files (two sharing a name); states are (table, pair) and load histories')
ASSUME = ['pairs within 1e-9 of a cell boundary or of a search radius are left out', 'measurement files are in the text format; the binary format is documented as unsupported']
TH = (0., 10., 35., 60., 85.)


def dirs(n, low=True):
    out = []
    for t in TH:
        for k in range(n if t else 1):
            a, b = math.radians(t), 2 * math.pi * (k + .13) / n
            out.append((math.sin(a) * math.cos(b), math.sin(a) * math.sin(b), math.cos(a)))
    return out + [tuple(mul(d, -1.)) for d in out[1::3]] if low else out


SETS = [1, 2, 3, 4, 5, 9]
SHAPES = [(1, 1, 1), (2, 3, 4), (9, 7, 5), (4, 4, 1), (30, 20, 16)]


def CASES(tier):
    n = 5 if tier == 'quick' else 10
    cs = []
    for s in SETS:
        for w in range(3):
            cs.append(dict(k='scattered', s=s, w=w, n=n))
    for s in range(len(SHAPES)):
        for side in (1, -1):
            cs.append(dict(k='table', s=s, side=side, n=n if tier == 'quick' else 14))
    for h in [h for n in (1, 2, 3) for h in itertools.product(range(4), repeat=n)]:
        if tier == 'quick' and len(h) == 3 and sum(h) % 2:
            continue
        cs.append(dict(k='load', h=list(h)))
    return cs


def phi(d):
    return math.atan2(d[1], d[0]) % (2 * math.pi)


def remap(o, i):
    st = lambda d: math.sqrt(max(0., 1 - d[2] * d[2]))
    dp = abs(phi(i) - phi(o))
    if dp > math.pi:
        dp = 2 * math.pi - dp
    return [st(i) * st(o), dp / math.pi, i[2] * o[2]]


def samples(s, w):
    """s samples at spread places of the remapped cube, bunched for w = 1, near the top for w = 2"""
    out = []
    for k in range(s):
        p = [(k * .37 + .1) % 1., (k * .61 + .2) % 1., (k * .23 + .3) % 1.]
        if w == 1:
            p = [.4 + .02 * x for x in p]
        if w == 2:
            p = [p[0], 1. - .05 * p[1], p[2]]
        out.append((p, [.1 + .2 * (k % 4), 1. + k, .5 * (k % 3)]))
    return out


def scattered(sm, m):
    """None when too close to call"""
    r = .01
    while True:
        ds = [norm(sub(p, m)) for p, v in sm]
        if any(abs(d - r) < 1e-9 for d in ds):
            return None
        near = [i for i, d in enumerate(ds) if d <= r]
        if len(near) > 2 or r > 1.5:
            w = [math.exp(-100. * ds[i] ** 2) for i in near]
            return [sum(a * sm[i][1][c] for a, i in zip(w, near)) / sum(w) for c in range(3)]
        r *= 1.414


def run_scattered(case, ctx):
    sm = samples(case['s'], case['w'])
    tree = KdTree(np.array([p for p, v in sm]))
    data = np.empty(len(sm), dtype=object)
    for i, (p, v) in enumerate(sm):
        data[i] = IrIsotropicBRDFSample(Pt(p), Spectrum.from_rgb(v))
    b = IrIsotropicBRDF(tree, data)
    rng = [(min(v[c] for p, v in sm), max(v[c] for p, v in sm)) for c in range(3)]
    for o in dirs(case['n']):
        for i in dirs(case['n']):
            if o[2] * i[2] <= 0:
                continue
            want = scattered(sm, remap(o, i))
            if want is None:
                ctx.skip()
                continue
            tag = '%d samples %d wo=%r wi=%r' % (case['s'], case['w'], o, i)
            got = L(b.f(V(o), V(i)))
            ctx.close(got, want, 'scattered-lookup', tag)
            ctx.close(L(b.f(V(i), V(o))), got, 'exchange', tag, tol=1e-5)
            ctx.check(all(lo - 1e-9 <= g <= hi + 1e-9 for g, (lo, hi) in zip(got, rng)), 'range', tag)
            ctx.state(case['s'], case['w'], o, i)
    ctx.check(all(L(d.p) == p and L(d.v) == v for d, (p, v) in zip(data, sm)), 'samples-changed', repr(case))
    ctx.outcome('scattered/%d' % case['s'])
    ctx.trace()
    ctx.sample(case)


def run_table(case, ctx):
    nh, nd, npd = SHAPES[case['s']]
    tab = np.zeros((nh, nd, npd, 3))
    for a in range(nh):
        for b in range(nd):
            for c in range(npd):
                tab[a, b, c] = (a + 1., b + .5, c + .25)
    keep = tab.copy()
    f = ReHalfangleBRDF(tab, nh, nd, npd)
    ds = [mul(d, case['side']) for d in dirs(case['n'], False)]
    for o in ds:
        for i in ds:
            tag = 'table %r wo=%r wi=%r' % (SHAPES[case['s']], o, i)
            wo, wi = (o, i) if case['side'] > 0 else (mul(o, -1.), mul(i, -1.))
            h = unit(add(wo, wi))
            th = math.acos(max(-1., min(1., h[2])))
            ph = math.atan2(h[1], h[0])
            x = [math.cos(ph) * h[2], math.sin(ph) * h[2], -math.sin(th)]
            y = [-math.sin(ph), math.cos(ph), 0.]
            d = [dot(wi, x), dot(wi, y), dot(wi, h)]
            td = math.acos(max(-1., min(1., d[2])))
            pd = math.atan2(d[1], d[0]) % (2 * math.pi)
            vals = [math.sqrt(th / (math.pi / 2)) * nh, td / (math.pi / 2) * nd, (pd if pd <= math.pi else pd - math.pi) / math.pi * npd]
            loose = [k for k, v in enumerate(vals) if abs(v - round(v)) < 1e-6]
            got = L(f.f(V(o), V(i)))
            idx = [max(0, min(n - 1, int(v))) for v, n in zip(vals, (nh, nd, npd))]
            want = (idx[0] + 1., idx[1] + .5, idx[2] + .25)
            if norm(d[:2] + [0.]) < 1e-9:
                loose.append(2)                  # no azimuth
            for k in range(3):
                if k in loose and (vals[k] > 1e-6 or k == 2) or k == 0 and th < 1e-6:
                    ctx.skip()
                else:
                    ctx.check(abs(got[k] - want[k]) < 1e-9, 'cell', '%s: axis %d got %r want %r' % (tag, k, got, want))
            ctx.state('table', case['s'], tuple(o), tuple(i))
    ctx.check((tab == keep).all(), 'table-changed', repr(case))
    ctx.outcome('table/%d' % case['side'])
    ctx.trace()
    ctx.sample(case)


WL = (410., 500., 640.)
FILES = [('x/a.brdf', 4, 0), ('x/b.brdf', 3, 1), ('y/a.brdf', 5, 2), ('x/c.BRDF', 1, 3)]


def records(n, seed):
    out = []
    for k in range(n):
        q = k + 7 * seed
        out.append((.1 + (q * .31) % 1.3, (q * 1.7) % 6., .1 + (q * .53) % 1.3, (q * 2.9 + .5) % 6., .1 * (q % 5 + 1), .2 * (q % 3 + 1), .05 * (q % 7 + 1)))
    return out


def text(n, seed):
    s = '# a measured surface\n%d\n' % len(WL)
    if seed == 1:
        s += '#tight comment\n'
    s += ' '.join('%r' % w for w in WL) + '\n\n'
    for i, r in enumerate(records(n, seed)):
        x = ['%r' % v for v in r]
        if seed == 2:
            s += ' '.join(x[:4]) + '\n' + ' '.join(x[4:]) + '\n'
        else:
            s += ' '.join(x) + '\n'
        if i == 1:
            s += '#\n# between\n'
    return s


def run_load(case, ctx):
    root = tempfile.mkdtemp(prefix='b05_')
    pytracer.IrIsotropicData.clear()
    try:
        for name, n, seed in FILES:
            d = os.path.join(root, os.path.dirname(name))
            if not os.path.isdir(d):
                os.makedirs(d)
            with open(os.path.join(root, name), 'w') as f:
                f.write(text(n, seed))
        g = DifferentialGeometry(Pt((0, 0, 0)), V((1, 0, 0)), V((0, 1, 0)), Nm((0, 0, 0)), Nm((0, 0, 0)), .5, .5, None)
        mats = [(k, MeasuredMaterial(os.path.join(root, FILES[k][0]))) for k in case['h']]
        for pos, (k, m) in enumerate(mats):
            name, n, seed = FILES[k]
            sm = []
            for r in records(n, seed):
                d = [(math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)) for t, p in ((r[0], r[1]), (r[2], r[3]))]
                sm.append((remap(d[1], d[0]), L(Spectrum.from_sampled(list(WL), list(r[4:])))))
            b = m.get_bsdf(g, g)
            ctx.check(int(b.n_components(BDFType(31))) == 1 and int(b.n_components(BDFType(1 | 8))) == 1, 'lobe', repr(case))
            for o in dirs(3, False)[::2]:
                for i in dirs(4, False)[1::2]:
                    want = scattered(sm, remap(o, i))
                    if want is not None:
                        want = [max(0., x) for x in want]
                        got = [float(x) for x in b.f(V(o), V(i))]
                        ctx.close(got, want, 'loaded', 'history %r load %d wo=%r wi=%r' % (case['h'], pos, o, i), tol=1e-5)
        ctx.state('load', tuple(case['h']))
        ctx.outcome('load/%d' % len(case['h']))
    finally:
        shutil.rmtree(root)
    ctx.trace()
    ctx.sample(case)


def RUN(case, ctx):
    globals()['run_' + case['k']](case, ctx)
