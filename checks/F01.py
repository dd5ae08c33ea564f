"""F01: the film's picture is the filter-weighted average of its contributions."""
from mc.pt import *
import shutil
import tempfile
import pytracer
from pytracer import Spectrum
from pytracer.film import ImageFilm
from pytracer.sampler import CameraSample
from pytracer.filter import BoxFilter, TriangleFilter, GaussianFilter, MitchellFilter
import pytracer.utility.imageio as iio

RULE = ('every film (resolution x crop x filter) with every history of contributions up to the depth: samples and splats at positions inside, on pixel borders, outside and '
        'near the crop edge; the picture is compared after the last contribution, distinct states are (film, multiset of contributions)')
ASSUME = ['filter values are tabulated at the resolution FILTER_TABLE_SIZE; offsets within rounding of a table border may use either neighbour',
          'the picture handed to the image writer is compared (F04 covers the writer); every film is also written to a scratch file once']

FILTERS = {'box': lambda: BoxFilter(.5, .5), 'box1': lambda: BoxFilter(1., .75), 'tri': lambda: TriangleFilter(1.5, 1.),
           'gauss': lambda: GaussianFilter(.75, 1.25, 1.), 'mitch': lambda: MitchellFilter(1. / 3, 1. / 3, 2., 1.5)}
FILMS = [((4, 3), (0., 1., 0., 1.)), ((3, 6), (0., 1., .25, .75)), ((6, 3), (.3, .9, .4, 1.)), ((5, 4), (.5, 1., 0., .5)), ((2, 2), (.5, .5, 0., 1.)), ((1, 5), (0., 1., .1, .7))]
COL = [(1., .5, .25), (0., 2., 1.), (-3., -.25, .5), (0., 0., 0.)]


_memo = {}


def mkfilter(f):
    """the real filter, its scalar answers remembered (a film tabulates it 256 times)"""
    if f not in _memo:
        base = FILTERS[f]()

        class Memo(type(base)):
            tab = {}

            def __call__(self, x, y):
                if np.ndim(x) or np.ndim(y):
                    return super().__call__(x, y)
                k = (float(x), float(y))
                if k not in self.tab:
                    self.tab[k] = super().__call__(x, y)
                return self.tab[k]
        base.__class__ = Memo
        _memo[f] = base
    return _memo[f]


def positions(ext):
    x0, x1, y0, y1 = ext
    return [(x0 + .5, y0 + .5), (x0, y0), (x0 + 1., y0 + .3), (x0 + .73, y0 + .21), (x1 - .26, y1 - .9), (x1, y1), (x1 - 1e-3, y1 - .5),
            (x0 - .4, y0 + .4), (x1 + .45, y1 + .3), (x0 - 2., y0), (x1 + 3., y1 + 40.), (-1.25, -.75), (x0 + .4, y1 + .6)]


def CASES(tier):
    cs = [dict(k='ext', film=i) for i in range(len(FILMS))]
    for i in range(len(FILMS)):
        for f in sorted(FILTERS):
            n = 13 * 2
            for first in range(n):
                cs.append(dict(k='hist', film=i, f=f, first=first, depth=2 if tier == 'quick' else 3))
    return cs


CHUNK = 2


class capture(object):
    """records the arguments of the image writer"""

    def __enter__(self):
        self.old = iio.write_image
        self.calls = []

        def rec(*a, **k):
            self.calls.append((a, k))
            return None
        iio.write_image = rec
        return self

    def __exit__(self, *a):
        iio.write_image = self.old


def write(film, ctx, tag, scale=None):
    with capture() as c:
        film.write_image() if scale is None else film.write_image(scale)
    if not ctx.check(len(c.calls) == 1, 'written-once', '%s: %d writes' % (tag, len(c.calls))):
        return None
    a, k = c.calls[0]
    names = ['filename', 'rgb', 'alpha', 'xRes', 'yRes', 'xFullRes', 'yFullRes', 'xOffset', 'yOffset']
    d = dict(zip(names, a))
    d.update(k)
    return d


def extent(res, crop):
    xr, yr = res
    x0 = math.ceil(xr * crop[0])
    x1 = x0 + max(1, math.ceil(xr * crop[1]) - x0)
    y0 = math.ceil(yr * crop[2])
    y1 = y0 + max(1, math.ceil(yr * crop[3]) - y0)
    return x0, x1, y0, y1


class Ref(object):
    """per-pixel accumulator in RGB; weights as [lo, hi] choices are avoided by skipping ambiguous table borders"""

    def __init__(self, filt, ext):
        self.f, self.ext = filt, ext
        self.n = pytracer.FILTER_TABLE_SIZE
        self.acc = {(x, y): [0., 0., 0., 0.] for x in range(ext[0], ext[1]) for y in range(ext[2], ext[3])}
        self.spl = {k: [0., 0., 0.] for k in self.acc}
        self.amb = set()

    def wt(self, d, w):
        """tabulated offset, ambiguity flag"""
        a = abs(d) * self.n / w
        i = min(self.n - 1, int(math.floor(a)))
        r = abs(a - round(a))
        return (i + .5) * w / self.n, (1e-12 < r < 1e-7)

    def add(self, x, y, c):
        xw, yw = float(self.f.xw), float(self.f.yw)
        dx, dy = x - .5, y - .5
        for (px, py), a in self.acc.items():
            if abs(px - dx) <= xw and abs(py - dy) <= yw:
                ox, a1 = self.wt(px - dx, xw)
                oy, a2 = self.wt(py - dy, yw)
                w = float(self.f(ox, oy))
                if a1 or a2:
                    self.amb.add((px, py))
                for i in range(3):
                    a[i] += w * c[i]
                a[3] += w
            if min(abs(abs(px - dx) - xw), abs(abs(py - dy) - yw)) < 1e-9 and not (abs(px - dx) <= xw and abs(py - dy) <= yw) \
                    and abs(px - dx) <= xw + 1e-9 and abs(py - dy) <= yw + 1e-9:
                self.amb.add((px, py))

    def splat(self, x, y, c):
        k = (math.floor(x), math.floor(y))
        if k in self.spl:
            for i in range(3):
                self.spl[k][i] += c[i]

    def pixel(self, k, scale):
        a = self.acc[k]
        out = [0., 0., 0.]
        if a[3] != 0.:
            out = [max(0., a[i] / a[3]) for i in range(3)]
        return [out[i] + scale * self.spl[k][i] for i in range(3)]


def compare(film, ref, ctx, tag, scale=None):
    d = write(film, ctx, tag, scale)
    if d is None:
        return
    x0, x1, y0, y1 = ref.ext
    rgb = d['rgb']
    ctx.check(np.shape(rgb) == (y1 - y0, x1 - x0, 3), 'picture-shape', '%s: %r' % (tag, np.shape(rgb)))
    ctx.check([d['xRes'], d['yRes'], d['xFullRes'], d['yFullRes'], d['xOffset'], d['yOffset']] == [x1 - x0, y1 - y0, film.xResolution, film.yResolution, x0, y0],
              'window', '%s: %r' % (tag, {k: v for k, v in d.items() if k != 'rgb'}))
    ctx.check(d['filename'] == film.filename, 'filename', tag)
    for (x, y) in ref.acc:
        if (x, y) in ref.amb or abs(ref.acc[x, y][3]) < 1e-9 and ref.acc[x, y][3] != 0.:
            ctx.skip()
            continue
        ctx.close(rgb[y - y0][x - x0], ref.pixel((x, y), 1. if scale is None else scale), 'pixel', '%s pixel %r' % (tag, (x, y)), tol=2e-5)


def mk(i, f, fn='unused.png'):
    res, crop = FILMS[i]
    c = list(crop)
    film = ImageFilm(res[0], res[1], mkfilter(f), c, fn)
    return film, c


def do_ext(i, ctx):
    res, crop = FILMS[i]
    ext = extent(res, crop)
    for f in sorted(FILTERS):
        tag = 'film %r crop %r filter %s' % (res, crop, f)
        film, c = mk(i, f)
        ctx.check(list(map(int, film.get_pixel_extent())) == list(ext), 'pixel-extent', '%s: %r, want %r' % (tag, film.get_pixel_extent(), ext))
        se = [int(v) for v in film.get_sample_extent()]
        filt = film.filter
        # every position that influences a pixel of the window lies inside the sample extent (end exclusive)
        xw, yw = float(filt.xw), float(filt.yw)
        ctx.check(se[0] <= ext[0] + .5 - xw and se[1] > ext[1] - 1 + .5 + xw - 1e-9, 'sample-extent', '%s: %r' % (tag, se))
        ctx.check(se[2] <= ext[2] + .5 - yw and se[3] > ext[3] - 1 + .5 + yw - 1e-9, 'sample-extent', '%s: %r' % (tag, se))
        # and does not run away: at most one pixel of slack per side beyond the footprint
        ctx.check(se[0] > ext[0] + .5 - xw - 2 and se[1] <= ext[1] + .5 + xw + 2 and se[2] > ext[2] + .5 - yw - 2 and se[3] <= ext[3] + .5 + yw + 2,
                  'sample-extent-size', '%s: %r' % (tag, se))
        # empty film is black; the crop given is neither modified nor shared
        compare(film, Ref(filt, ext), ctx, tag + ' empty')
        ctx.check(c == list(crop), 'crop-modified', tag)
        # every single position of a fine grid, whichever pixels it reaches
        for xi in range(2 * (ext[0] - 3), 2 * (ext[1] + 3) + 1):
            for yi in (2 * ext[2] - 1, 2 * ext[2], 2 * ext[2] + 1, 2 * ext[3], 2 * ext[3] + 1):
                ref = Ref(filt, ext)
                film2, _ = mk(i, f)
                s = CameraSample(xi / 2. + .01, yi / 2. + .01)
                film2.add_sample(s, rgbs(COL[0]))
                ref.add(s.imageX, s.imageY, COL[0])
                compare(film2, ref, ctx, '%s sample at %r' % (tag, (s.imageX, s.imageY)))
        # end to end: a real file holds the picture (quantised, each channel scaled to its maximum)
        if ext == (0, res[0], 0, res[1]):
            d = tempfile.mkdtemp(prefix='mcF01.')
            try:
                fn = os_join(d, 'p.png')
                film3, _ = mk(i, f, fn)
                ref = Ref(filt, ext)
                for n, (x, y) in enumerate(positions(ext)[:7]):
                    film3.add_sample(CameraSample(x, y), rgbs(COL[n % 2]))
                    ref.add(x, y, COL[n % 2])
                film3.write_image()
                got = iio.read_image(fn)
                want = np.array([[ref.pixel((x, y), 1.) for x in range(ext[0], ext[1])] for y in range(ext[2], ext[3])])
                for ch in range(3):
                    m = want[:, :, ch].max()
                    if m > 0:
                        want[:, :, ch] *= 255. / m
                if not ref.amb:
                    ctx.check(got.shape == want.shape and (np.abs(got - want) <= 1.01).all(), 'file', '%s: file %r want %r' % (tag, got.tolist(), want.tolist()))
            finally:
                shutil.rmtree(d)
        ctx.trace()
        ctx.state('ext', i, f)


def os_join(d, f):
    return d + '/' + f


def rgbs(c):
    return Spectrum.from_rgb([float(v) for v in c])


def apply(film, ref, op, ctx, tag):
    kind, (x, y), c = op
    s = CameraSample(x, y, .25, .75, .5)
    L = rgbs(c)
    (film.add_sample if kind == 'a' else film.splat)(s, L)
    (ref.add if kind == 'a' else ref.splat)(x, y, c)
    ctx.check([float(v) for v in L] == [float(v) for v in c] and (s.imageX, s.imageY, s.time) == (x, y, .5), 'operand-modified', tag)
    ctx.step()


def RUN(case, ctx):
    ctx.outcome(case['k'])
    if case['k'] == 'ext':
        return do_ext(case['film'], ctx)
    i, f = case['film'], case['f']
    ext = extent(*FILMS[i])
    ps = positions(ext)
    ops = [('a', q, COL[n % 3]) for n, q in enumerate(ps)] + [('s', q, COL[(n + 1) % 4]) for n, q in enumerate(ps)]
    first = ops[case['first']]
    menu = ops if case['depth'] == 2 else ops[::2] + ops[1::6]
    seqs = [()] + [(a,) for a in ops]
    if case['depth'] > 2:
        seqs += [(a, b) for a in menu for b in menu]
    for n, rest in enumerate(seqs):
        film, _ = mk(i, f)
        ref = Ref(film.filter, ext)
        tag = 'film %r %s history %r' % (FILMS[i], f, (first,) + rest)
        for op in (first,) + rest:
            apply(film, ref, op, ctx, tag)
        compare(film, ref, ctx, tag, scale=None if n % 3 else .25)
        if n % 11 == 0:     # writing does not consume the film
            compare(film, ref, ctx, tag + ' again')
        ctx.state('hist', i, f, first, rest)
        ctx.trace()
    ctx.sample(dict(film=FILMS[i], filter=f, first=first))
