"""P01: samplers cover every pixel of the window exactly once, whole or split."""
from mc.pt import *
from pytracer.sampler import Sample, StratifiedSampler

RULE = ('every window (origin x width x height of the alphabet) x split count x samples-per-pixel shape: all pieces are driven to exhaustion and past it; '
        'each emitted batch is a transition of the scan automaton, distinct states are (window, split, piece, pixel)')
ASSUME = ['windows are non-empty; positions are compared against closed pixels (a jitter of one ulp below one may round onto the border)']

ORIG = [(0, 0), (-3, 2), (5, -1), (2, 7)]


def CASES(tier):
    n = 5 if tier == 'quick' else 8
    cs = []
    sizes = [(w, h) for w in range(1, n + 1) for h in range(1, n + 1)] + [(1, 13), (13, 1), (3, 11), (11, 4), (16, 2)]
    if tier != 'quick':
        sizes += [(1, 31), (31, 1), (20, 3), (5, 24), (17, 17)]
    splits = list(range(1, 10)) + [12, 16] + ([24, 32, 36, 48, 64] if tier != 'quick' else [])
    for i, (w, h) in enumerate(sizes):
        for j, o in enumerate(ORIG):
            cs.append(dict(o=list(o), w=w, h=h, splits=splits, st=[1, 1] if (i + j) % 3 else [2, 1]))
    for st in [(1, 1), (2, 1), (1, 3), (3, 2), (0, -1)]:
        for jit in (0, 1):
            for o in ORIG[:3]:
                cs.append(dict(o=list(o), w=3, h=2, splits=[1, 2, 3, 4, 6], st=list(st), jit=jit))
    return cs


CHUNK = 2


def drive(s, n, limit, tag, ctx):
    """run to exhaustion -> list of batches of (x, y)"""
    smp = Sample().duplicate(n)
    out = []
    while True:
        r = s.generate(smp)
        if not r:
            break
        out.append([(float(q.imageX), float(q.imageY)) for q in smp])
        ctx.step()
        if len(out) > limit:
            ctx.fail('endless', '%s: more than %d batches' % (tag, limit))
            return out
    last = [(float(q.imageX), float(q.imageY)) for q in smp]
    for _ in range(3):
        ctx.check(not s.generate(smp), 'exhaustion', '%s: emits again after reporting exhaustion' % tag)
    if out:
        ctx.check(last == out[-1] and [(float(q.imageX), float(q.imageY)) for q in smp] == last, 'exhausted-writes', tag)
    return out


def pixel(b, strat, tag, ctx):
    """the pixel a batch belongs to"""
    xs = [q[0] for q in b]
    ys = [q[1] for q in b]
    px, py = math.floor(min(xs)), math.floor(min(ys))
    ctx.check(max(xs) <= px + 1 + 1e-9 and max(ys) <= py + 1 + 1e-9, 'one-pixel', '%s: batch %r spans pixels' % (tag, b))
    return px, py


def RUN(case, ctx):
    (ox, oy), w, h = case['o'], case['w'], case['h']
    sx, sy = case['st']
    n = max(sx, 1) * max(sy, 1)
    jit = bool(case.get('jit', 0))
    want = sorted((x, y) for x in range(ox, ox + w) for y in range(oy, oy + h))

    def mk():
        return StratifiedSampler(ox, ox + w, oy, oy + h, sx, sy, jit, 0., 1.)
    tag = 'window %dx%d at %r, %dx%d samples' % (w, h, (ox, oy), sx, sy)
    s = mk()
    ctx.check(s.maximum_sample_cnt() == n and s.spp == n, 'count', tag)
    for k in (1, 4, 7):
        ctx.check(s.round_size(k) >= k, 'round-size', tag)
    whole = drive(s, n, w * h + 2, tag, ctx)
    ctx.check(all(len(b) == n for b in whole), 'batch-size', tag)
    got = sorted(pixel(b, n, tag, ctx) for b in whole)
    ctx.check(got == want, 'coverage', '%s: pixels %r' % (tag, got), want=want)
    for p in got:
        ctx.state(tag, p)
    ctx.trace()
    for cnt in case['splits']:
        parent = mk()
        cover, pos = [], []
        t = '%s split in %d' % (tag, cnt)
        for k in range(cnt):
            win = [float(v) for v in parent.compute_subwindow(k, cnt)]
            ctx.check(len(win) == 4 and all(v == int(v) for v in win), 'whole-pixels', '%s: piece %d is %r' % (t, k, win))
            x0, x1, y0, y1 = win
            ctx.check(ox <= x0 <= x1 <= ox + w and oy <= y0 <= y1 <= oy + h, 'inside', '%s: piece %d is %r' % (t, k, win))
            area = (x1 - x0) * (y1 - y0)
            sub = parent.get_subsampler(k, cnt)
            if area == 0:
                ctx.check(sub is None, 'empty-piece', '%s: piece %d %r is empty but has a sampler' % (t, k, win))
            if sub is None:
                ctx.check(area == 0, 'missing-piece', '%s: piece %d %r has no sampler' % (t, k, win))
                continue
            ctx.check(sub.maximum_sample_cnt() == n, 'sub-count', t)
            bs = drive(sub, n, w * h + 2, '%s piece %d' % (t, k), ctx)
            for b in bs:
                p = pixel(b, n, t, ctx)
                ctx.check(x0 <= p[0] < x1 and y0 <= p[1] < y1, 'piece-window', '%s: piece %d %r emitted %r' % (t, k, win, p))
                cover.append(p)
                ctx.state(tag, cnt, k, p)
            pos += [tuple(round(c, 9) for c in q) for b in bs for q in b]
        ctx.check(sorted(cover) == want, 'split-coverage', '%s: pixels %r' % (t, sorted(cover)))
        if not jit:
            ctx.check(sorted(pos) == sorted(tuple(round(c, 9) for c in q) for b in whole for q in b), 'split-samples', t)
        # splitting does not disturb the undivided sampler
        ctx.check(len(drive(parent, n, w * h + 2, t, ctx)) == w * h, 'parent-disturbed', t)
        ctx.trace()
    ctx.outcome((w, h))
    ctx.sample(case)
