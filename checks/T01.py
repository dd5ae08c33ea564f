"""T01: image pyramids and image textures."""
import itertools
import os
import shutil
import tempfile
from mc.pt import *
from mc.mip import Ref, pow2
from pytracer import Spectrum, FLOAT
from pytracer.spectral import RGBSpectrum
from pytracer.texture.utility import MIPMap, ImageWrap
from pytracer.texture import ImageTexture

RULE = ('every image size x wrap mode x way of storing the image x basis image (one texel lit per colour channel) and constant image: every texel address inside and outside, every level, every position x width of a grid, '
        'every position x pair of footprint axes of a grid, against a reference pyramid written with plain numbers; image textures: every file x storage and return type x scale x gamma x wrap, created in every order of pairs; '
        'states are (size, wrap, storage, image, lookup)')
ASSUME = ['anisotropic lookups are compared with the exact Gaussian within the resolution of the weight table (0.03 of a unit texel); their other claims (range, constants, symmetry, finest-level limit) are exact',
          'with black wrapping the image is surrounded by black, so constancy and continuity at the coarsest level are claimed for repeat and clamp only']
WRAP = [ImageWrap.REPEAT, ImageWrap.BLACK, ImageWrap.CLAMP]
HOW = ['rgb3d', 'rgbobj', 'uint8', 'float', 'pyfloat']


# ---------------------------------------------------------------- images
def images(w, h):
    """channel images; every texel is lit alone in one of them"""
    out = [[[.7] * w for _ in range(h)]]
    for k in range(w * h):
        out.append([[1. if t * w + s == k else 0. for s in range(w)] for t in range(h)])
    out.append([[.1 + ((3 * t + 2 * s) % 7) / 10. for s in range(w)] for t in range(h)])
    while len(out) % 3:
        out.append([[.5 + ((t + s) % 2) / 2. for s in range(w)] for t in range(h)])
    return out


class Map(object):
    """a real pyramid of three channel images and the three references"""
    def __init__(self, chans, wrap, how, **kw):
        h, w = len(chans[0]), len(chans[0][0])
        self.how, self.wrap, self.w, self.h = how, wrap, w, h
        if how in ('float', 'pyfloat'):
            self.raw = np.array(chans[0], dtype=float)
            self.real = MIPMap(FLOAT if how == 'float' else float, self.raw, wrap=WRAP[wrap], **kw)
            self.n = 1
        else:
            a = np.array([[[c[t][s] for c in chans] for s in range(w)] for t in range(h)])
            if how == 'uint8':
                a = np.array(np.round(a * 100), dtype=np.uint8)
                chans = [[[float(round(x * 100)) for x in r] for r in c] for c in chans]
            if how == 'rgbobj':
                self.raw = np.empty([h, w], dtype=object)
                for t in range(h):
                    for s in range(w):
                        self.raw[t, s] = RGBSpectrum(a[t, s])
            else:
                self.raw = a
            self.real = MIPMap(RGBSpectrum, self.raw, wrap=WRAP[wrap], **kw)
            self.n = 3
        self.before = self.rawlist()
        self.ref = [Ref(c, wrap) for c in chans[:self.n]]
        self.mx = [max(max(max(r) for r in r_.lv[0]), 0.) for r_ in self.ref]
        self.mn = [min(min(r) for r in r_.lv[0]) if wrap != 1 else 0. for r_ in self.ref]
        self.tag = '%dx%d %s %s' % (w, h, WRAP[wrap].name, how)

    def rawlist(self):
        return [L(np.ravel(x)) for x in np.ravel(self.raw)] if self.raw.dtype == object else L(np.ravel(self.raw))

    def out(self, v):
        return L(np.ravel(v))

    def get(self, p):
        return self.out(self.real.look_up(p))

    def fits(self, ctx, got, what):
        ctx.check(len(got) == self.n and all(lo - 1e-9 <= x <= hi + 1e-9 for x, lo, hi in zip(got, self.mn, self.mx)), 'range', '%s: %r outside %r..%r' % (what, got, self.mn, self.mx))


def maps(case):
    im = images(case['w'], case['h'])
    how = case['how']
    if how in ('float', 'pyfloat'):
        pick = im if case.get('all', 1) else [im[0], im[len(im) // 2], im[-1]]
        return [([c], how) for c in pick]
    g = [im[i:i + 3] for i in range(0, len(im), 3)]
    return [(c, how) for c in g]


GRID = [-1.3, -.5, -.125, 0., 1 / 16., .2, .25, .375, .5, 2 / 3., .75, .9, 1., 1.0625, 2.4]
GRIDQ = [-.6, 0., .125, .3, .5, .9, 1.7]
WIDTH = [0., 1e-7, .01, 1 / 16., .1, .125, .2, .25, .35, .5, .7, 1. - 1e-6, 1., 1.5, 100.]
AXQ = [(0., 0.), (0., 4e-4), (.02, 0.), (0., .2), (.1, .15), (-.3, -.9)]
AX = [(0., 0.), (0., 4e-4), (.02, 0.), (0., .05), (.2, 0.), (0., .2), (.1, .15), (-.1, .25), (.6, .1), (-.3, -.9), (.05, 1.6)]


def CASES(tier):
    q = tier == 'quick'
    cs = []
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (4, 1), (1, 4), (4, 2), (2, 4), (4, 4), (3, 1), (1, 3), (3, 2), (2, 3), (3, 3), (5, 3), (3, 5)] + ([] if q else [(8, 2), (2, 8), (8, 4), (8, 8), (6, 4), (4, 6), (7, 5), (5, 5), (1, 8)])
    for w, h in sizes:
        for wr in range(3):
            for how in HOW:
                cs.append(dict(k='level', w=w, h=h, wrap=wr, how=how))
            for how in ('rgb3d', 'float') if not q or (w, h) in ((4, 2), (1, 4), (2, 3)) else ('rgb3d',):
                cs.append(dict(k='iso', w=w, h=h, wrap=wr, how=how, all=int(how == 'float' and not q), grid=int(not q)))
                cs.append(dict(k='ewa', w=w, h=h, wrap=wr, how=how, all=0, grid=int(not q), aniso=8.))
            if (w, h) in ((4, 2), (2, 4), (3, 2), (4, 4)):
                for an in (1., 64.) if q else (1., 2., 4., 64.):
                    cs.append(dict(k='ewa', w=w, h=h, wrap=wr, how='rgb3d', all=0, grid=0, aniso=an))
                cs.append(dict(k='tril', w=w, h=h, wrap=wr, how='rgb3d'))
    cs += [dict(k='file', f=i) for i in range(len(FILES))]
    cs.append(dict(k='nofile'))
    return cs


def run_level(case, ctx):
    for ch, how in maps(case):
        m = Map(ch, case['wrap'], how)
        r0 = m.ref[0]
        w, h = pow2(m.w), pow2(m.h)
        ctx.check(int(m.real.levels) == len(r0.lv) and int(m.real.width) == w and int(m.real.height) == h, 'size',
                  '%s: levels %r size %rx%r' % (m.tag, m.real.levels, m.real.width, m.real.height))
        for l in range(len(r0.lv)):
            lh, lw = len(r0.lv[l]), len(r0.lv[l][0])
            for t in range(-lh - 1, 2 * lh + 2):
                for s in range(-lw - 1, 2 * lw + 2):
                    got = m.out(m.real.texel(l, s, t))
                    ctx.close(got, [r.texel(l, s, t) for r in m.ref], 'texel', '%s level %d (%d, %d)' % (m.tag, l, s, t), tol=1e-9)
                    ctx.state('texel', m.tag, l, s, t, got)
                    ctx.step()
        # what is handed out belongs to the caller
        for l in range(len(r0.lv)):
            v = m.real.texel(l, 0, 0)
            if m.n == 3:
                v[:] = 77.
                ctx.close(m.out(m.real.texel(l, 0, 0)), [r.texel(l, 0, 0) for r in m.ref], 'pyramid-changed', m.tag + ' by changing a texel')
                v = m.real.look_up([.5, .5, 5.])
                v[:] = 77.
                ctx.close(m.get([.5, .5, 5.]), [r.lv[-1][0][0] for r in m.ref], 'pyramid-changed', m.tag + ' by changing a lookup')
        ctx.check(m.rawlist() == m.before, 'image-changed', m.tag)
        if m.n == 3:
            if m.raw.dtype == object:
                m.raw[0, 0][:] = 55.
            else:
                m.raw[0, 0] = 55.
            ctx.close(m.out(m.real.texel(0, 0, 0)), [r.texel(0, 0, 0) for r in m.ref], 'pyramid-changed', m.tag + ' by changing the image')
        ctx.trace()
    ctx.sample(case)


def run_iso(case, ctx):
    grid = GRID if case['grid'] else GRID[::2]
    for ch, how in maps(case):
        m = Map(ch, case['wrap'], how)
        for s, t in itertools.product(grid, grid):
            for w in WIDTH if case['grid'] or len(maps(case)) < 5 else WIDTH[::2]:
                p = [s, t, w]
                got = m.get(p)
                ctx.close(got, [r.iso(s, t, w) for r in m.ref], 'isotropic', '%s at %r' % (m.tag, p), tol=1e-9)
                m.fits(ctx, got, '%s at %r' % (m.tag, p))
                ctx.check(p == [s, t, w], 'arguments', m.tag)
                ctx.state('iso', m.tag, p, got)
                ctx.step()
            ctx.close(m.get([s, t]), [r.tri(0, s, t) for r in m.ref], 'finest', '%s at %r' % (m.tag, (s, t)), tol=1e-9)
            # no jump where a level takes over
            for l in range(1, len(m.ref[0].lv)):
                w = 2. ** (l - len(m.ref[0].lv) + 1)
                if case['wrap'] == 1 and w == 1.:
                    ctx.skip()
                    continue
                a, b = m.get([s, t, w * (1 - 1e-7)]), m.get([s, t, w * (1 + 1e-7)])
                ctx.close(a, b, 'jump', '%s at %r width %r' % (m.tag, (s, t), w), tol=1e-5)
        ctx.trace()
    ctx.sample(case)


def run_ewa(case, ctx):
    grid = GRIDQ if case['grid'] else GRIDQ[::3]
    an = case['aniso']
    axes = AX if case['grid'] else AXQ
    ms = maps(case)
    for ch, how in ms if case['grid'] else sorted(ms[:1] + ms[-1:], key=ms.index)[:2 if len(ms) > 1 else 1]:
        m = Map(ch, case['wrap'], how, max_aniso=an)
        for s, t in itertools.product(grid, grid):
            for a, b in itertools.product(axes, axes):
                p = [s, t, a[0], a[1], b[0], b[1]]
                got = m.get(p)
                tag = '%s aniso %r at %r' % (m.tag, an, p)
                ctx.check(p == [s, t, a[0], a[1], b[0], b[1]], 'arguments', tag)
                ctx.close(got, [r.ewa(s, t, a, b, an) for r in m.ref], 'anisotropic', tag, tol=.03)
                m.fits(ctx, got, tag)
                ctx.close(m.get([s, t, -a[0], -a[1], b[0], b[1]]), got, 'axis-sign', tag, tol=1e-9)
                if math.hypot(*a) != math.hypot(*b):
                    ctx.close(m.get([s, t, b[0], b[1], a[0], a[1]]), got, 'axis-order', tag, tol=1e-9)
                if a == (0., 0.) or b == (0., 0.):
                    ctx.close(got, [r.tri(0, s, t) for r in m.ref], 'degenerate', tag, tol=1e-9)
                ctx.state('ewa', m.tag, an, p, got)
                ctx.step()
        ctx.check(m.rawlist() == m.before, 'image-changed', m.tag)
        for l in range(len(m.ref[0].lv)):
            ctx.close(m.out(m.real.texel(l, 0, 0)), [r.texel(l, 0, 0) for r in m.ref], 'pyramid-changed', m.tag)
        ctx.trace()
    ctx.sample(case)


def run_tril(case, ctx):
    for ch, how in maps(case):
        m = Map(ch, case['wrap'], how, trilinear=True)
        for s, t in itertools.product(GRIDQ[::2], GRIDQ[::2]):
            for a, b in itertools.product(AXQ, AX):
                p = [s, t, a[0], a[1], b[0], b[1]]
                w = 2 * max(abs(x) for x in p[2:])
                ctx.close(m.get(p), [r.iso(s, t, w) for r in m.ref], 'trilinear', '%s at %r' % (m.tag, p), tol=1e-9)
                ctx.check(p == [s, t, a[0], a[1], b[0], b[1]], 'arguments', m.tag)
                ctx.state('tril', m.tag, p)
                ctx.step()
        ctx.trace()
    ctx.sample(case)


# ---------------------------------------------------------------- files
def _px(w, h, k):
    return [[[(37 * (t * w + s) + 61 * c + k) % 251 for c in range(3)] for s in range(w)] for t in range(h)]


FILES = [_px(2, 2, 5), _px(4, 2, 9), _px(2, 4, 11), _px(4, 4, 200), _px(1, 4, 3), _px(3, 2, 0)]
# (return type, storage type, scale, gamma, wrap)
KEYS = [(Spectrum, RGBSpectrum, 1., 1., 0), (Spectrum, RGBSpectrum, .01, 1., 1), (Spectrum, RGBSpectrum, 1 / 255., 2.2, 2), (FLOAT, FLOAT, 1., 1., 0), (float, FLOAT, 1 / 255., .5, 2), (FLOAT, FLOAT, 1 / 255., 2.2, 2),
        (Spectrum, RGBSpectrum, 1 / 255., 2.2, 0)]


class Mapping(object):
    def __call__(self, dg):
        return list(dg)


def mean(px):
    return .212671 * px[0] + .715160 * px[1] + .072169 * px[2]


def run_file(case, ctx):
    import PIL.Image
    px = FILES[case['f']]
    h, w = len(px), len(px[0])
    d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, 'tex.png')
        PIL.Image.fromarray(np.array(px, dtype=np.uint8)).save(fn)
        raw = open(fn, 'rb').read()
        for seq in itertools.product(range(len(KEYS)), repeat=2):
            getattr(ImageTexture, '_ImageTexture__clear__cache__', getattr(ImageTexture, '__clear__cache__', lambda: None))()
            ts = []
            for k in seq:
                ret, mem, sc, gm, wr = KEYS[k]
                ts.append(ImageTexture(ret, mem, Mapping(), fn, wrap=WRAP[wr], scale=sc, gamma=gm))
            for k, tx in list(zip(seq, ts)) + list(zip(seq, ts))[:1]:
                ret, mem, sc, gm, wr = KEYS[k]
                f = lambda v: (sc * v) ** gm
                if mem is FLOAT:
                    refs = [Ref([[f(mean(p)) for p in r] for r in px], wr)]
                else:
                    refs = [Ref([[f(p[c]) for p in r] for r in px], wr) for c in range(3)]
                top = max(1., max(max(max(r) for r in q.lv[0]) for q in refs))
                for s, t in [(.5 / w, .5 / h), (1.5 / w, .5 / h), (.5 / w, 1.5 / h), (.4, .3), (1.2, -.1)]:
                    for ax in ((0., 0., 0., 0.), (.3, .1, -.1, .4)):
                        v = tx([s, t] + list(ax))
                        got = L(np.ravel(v))
                        if ax[0] == 0.:
                            want, tol = [q.tri(0, s, t) for q in refs], 1e-4
                        else:
                            want, tol = [q.ewa(s, t, ax[:2], ax[2:], 8.) for q in refs], .03
                        ctx.close([x / top for x in got], [x / top for x in want], 'file', 'image %dx%d key %r after %r at %r' % (w, h, k, seq, (s, t, ax)), tol=tol)
                        ctx.check(isinstance(v, Spectrum if ret is Spectrum else (float, FLOAT)), 'file-type', '%r' % type(v))
                        ctx.state('file', case['f'], k, seq, s, t, ax)
                        ctx.step()
            ctx.trace()
        ctx.check(open(fn, 'rb').read() == raw, 'file-changed', '')
    finally:
        shutil.rmtree(d)
    ctx.sample(case)


def run_nofile(case, ctx):
    import contextlib
    import io
    for ret, mem, sc, gm, wr in KEYS:
        with contextlib.redirect_stdout(io.StringIO()):
            tx = ImageTexture(ret, mem, Mapping(), '/nonexistent/tex.png', wrap=WRAP[wr], scale=sc, gamma=gm)
        for p in ([.5, .5, 0., 0., 0., 0.], [.2, .7, .1, 0., 0., .3])[:1 if wr == 1 else 2]:
            got = L(np.ravel(tx(p)))
            ctx.close(got, [sc ** gm] * len(got), 'missing-file', 'scale %r gamma %r' % (sc, gm), tol=1e-6)
            ctx.state('nofile', sc, gm, wr, p)
    ctx.trace()


def RUN(case, ctx):
    return globals()['run_' + case['k']](case, ctx)
