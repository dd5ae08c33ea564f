"""F04: image files hold the pictures and windows written to them."""
from mc.pt import *
import os
import shutil
import tempfile
import pytracer.utility.imageio as iio
import PIL.Image

RULE = ('every picture size x pixel pattern written and read back; every history of a full write followed by up to two partial-window (or full) writes, all windows of a small picture; '
        'distinct states are (size, pattern) and (size, window history)')
ASSUME = ['values are non-negative; normalisation: each channel is scaled so that its maximum becomes 255, eight-bit quantisation allows one unit']


def pattern(k, h, w):
    a = np.zeros((h, w, 3))
    for y in range(h):
        for x in range(w):
            for c in range(3):
                if k == 'ramp':
                    v = (x + 3. * y + 1.) * (c + 1)
                elif k == 'chan0':
                    v = (x * y + 1.) if c == 0 else 0.
                elif k == 'black':
                    v = 0.
                elif k == 'tiny':
                    v = ((x + 2 * y + c) % 4) * 1e-3
                elif k == 'big':
                    v = ((3 * x + y + 2 * c) % 7) * 1e4
                elif k == 'mixed':
                    v = ((x + y) % 2) * [1., 1e3, .5][c]
                else:
                    v = .5
                a[y, x, c] = v
    return a


PATS = ['ramp', 'chan0', 'black', 'tiny', 'big', 'mixed', 'flat']


def quant(a):
    a = a.copy()
    for c in range(3):
        m = a[:, :, c].max()
        if m > 0:
            a[:, :, c] *= 255. / m
    return a


def CASES(tier):
    n = 5 if tier == 'quick' else 9
    cs = [dict(k='rt', h=h, w=w) for h in range(1, n + 1) for w in range(1, n + 1)] + [dict(k='rt', h=1, w=16), dict(k='rt', h=16, w=8), dict(k='rt', h=12, w=7)]
    for (h, w) in [(2, 3), (3, 3), (4, 2), (1, 4)] + ([(4, 5), (5, 3)] if tier != 'quick' else []):
        for y in range(h):
            for x in range(w):
                cs.append(dict(k='win', h=h, w=w, y=y, x=x))
    cs.append(dict(k='err'))
    cs.append(dict(k='modes'))
    return cs


def RUN(case, ctx):
    ctx.outcome(case['k'])
    d = tempfile.mkdtemp(prefix='mcF04.')
    try:
        dict(rt=do_rt, win=do_win, err=do_err, modes=do_modes)[case['k']](case, ctx, d)
    finally:
        shutil.rmtree(d)
    ctx.sample(case)
    ctx.trace()


def same(got, want, ctx, sig, tag):
    ok = got is not None and np.shape(got) == np.shape(want) and (np.abs(np.asarray(got, dtype=float) - want) <= 1.0001).all()
    ctx.check(ok, sig, '%s: got %r want %r' % (tag, None if got is None else np.asarray(got).tolist(), np.round(want, 2).tolist()))


def do_rt(case, ctx, d):
    h, w = case['h'], case['w']
    for n, k in enumerate(PATS):
        fn = os.path.join(d, '%s.png' % k)
        a = pattern(k, h, w)
        b = a.copy()
        tag = '%dx%d %s' % (w, h, k)
        r = iio.write_image(fn, a, None, w, h, w, h, 0, 0)
        ctx.check((a == b).all(), 'argument-modified', tag)
        same(r, quant(b), ctx, 'returned', tag)
        got = iio.read_image(fn)
        same(got, quant(b), ctx, 'round-trip', tag)
        # and an independent reader agrees
        with PIL.Image.open(fn) as p:
            ctx.check(p.size == (w, h), 'size', '%s: file is %r' % (tag, p.size))
            same(np.array(p.convert('RGB')), quant(b), ctx, 'file', tag)
        got[...] = 7
        r[...] = 9
        same(iio.read_image(fn), quant(b), ctx, 'shared', tag)
        # overwriting leaves nothing of the old picture
        c = pattern(PATS[(n + 1) % len(PATS)], w, h)
        iio.write_image(fn, c.copy(), None, h, w, h, w, 0, 0)
        same(iio.read_image(fn), quant(c), ctx, 'overwrite', tag)
        ctx.state('rt', h, w, k)
        ctx.check(sorted(os.listdir(d)) == sorted(set(os.listdir(d)) & {q + '.png' for q in PATS}), 'stray-file', tag)


def windows(h, w):
    return [(y, x, hh, ww) for y in range(h) for x in range(w) for hh in range(1, h - y + 1) for ww in range(1, w - x + 1)]


def do_win(case, ctx, d):
    h, w = case['h'], case['w']
    fn = os.path.join(d, 'w.png')
    base = pattern('ramp', h, w)
    firsts = [q for q in windows(h, w) if q[:2] == (case['y'], case['x'])]
    full = (0, 0, h, w)
    for f in firsts:
        for s in [None] + windows(h, w):
            hist = [full, f] + ([s] if s else [])
            iio.write_image(fn, base.copy(), None, w, h, w, h, 0, 0)
            want = quant(base)
            tag = '%dx%d windows %r' % (w, h, hist[1:])
            for n, (y, x, hh, ww) in enumerate(hist[1:]):
                a = pattern(['mixed', 'big'][n], hh, ww)
                b = a.copy()
                r = iio.write_image(fn, a, None, ww, hh, w, h, x, y)
                ctx.check((a == b).all(), 'argument-modified', tag)
                want[y:y + hh, x:x + ww] = quant(b)
                same(r, want, ctx, 'window-returned', tag)
            same(iio.read_image(fn), want, ctx, 'window', tag)
            ctx.state('win', h, w, f, s)


def raises(f, ex):
    try:
        f()
    except ex:
        return True
    except Exception:
        return False
    return False


def do_err(case, ctx, d):
    a = pattern('ramp', 2, 2)
    fn = os.path.join(d, 'none.png')
    ctx.check(raises(lambda: iio.write_image(None, a, None, 2, 2, 2, 2, 0, 0), IOError), 'no-name', '')
    ctx.check(raises(lambda: iio.write_image(fn, None, None, 2, 2, 2, 2, 0, 0), IOError), 'no-data', '')
    ctx.check(raises(lambda: iio.read_image(None), IOError), 'no-name', '')
    ctx.check(raises(lambda: iio.write_image(fn, a, None, 2, 2, 4, 4, 0, 0), Exception), 'window-of-nothing', '')
    ctx.check(not os.path.exists(fn), 'window-of-nothing', 'a file appeared')
    ctx.state('err')


def do_modes(case, ctx, d):
    """pictures with an alpha channel lose it, whatever their size"""
    for h, w in ((1, 1), (2, 4), (3, 5), (4, 3), (8, 8)):
        a = np.zeros((h, w, 4), dtype='uint8')
        a[:, :, :3] = quant(pattern('ramp', h, w)).astype('uint8')
        a[:, :, 3] = 128
        fn = os.path.join(d, 'a%d%d.png' % (h, w))
        PIL.Image.fromarray(a, 'RGBA').save(fn)
        same(iio.read_image(fn), a[:, :, :3].astype(float), ctx, 'alpha', 'rgba %dx%d' % (w, h))
        ctx.state('rgba', h, w)
        # every other kind of file names the same colour at every pixel
        grey = quant(pattern('ramp', h, w)).astype('uint8')[:, :, 0]
        pal = (grey.astype('int') % 3).astype('uint8')
        colours = [[10, 20, 30], [200, 0, 7], [1, 255, 128]]
        for mode, data, want in (('L', grey, np.dstack([grey] * 3)),
                                 ('LA', np.dstack([grey, 255 - grey]), np.dstack([grey] * 3)),
                                 ('1', None, np.dstack([grey // 128 * 255] * 3)),
                                 ('P', pal, np.array(colours, dtype='uint8')[pal])):
            fn = os.path.join(d, '%s%d%d.png' % (mode, h, w))
            if mode == '1':
                pic = PIL.Image.new('1', (w, h))
                for y in range(h):
                    for x in range(w):
                        pic.putpixel((x, y), 255 if grey[y][x] >= 128 else 0)
            else:
                pic = PIL.Image.fromarray(data, mode)
                if mode == 'P':
                    pic.putpalette(sum(colours, []) + [0] * 759)
            pic.save(fn)
            same(iio.read_image(fn), want.astype(float), ctx, 'mode', '%s %dx%d' % (mode, h, w))
            ctx.state(mode, h, w)
