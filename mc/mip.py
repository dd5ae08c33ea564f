"""reference image pyramid in plain numbers; wrap: 0 repeat, 1 black, 2 clamp"""
import math


def lanczos(x):
    x = abs(x)
    if x < 1e-5:
        return 1.
    if x > 1.:
        return 0.
    f = lambda v: math.sin(math.pi * v) / (math.pi * v)
    return f(2 * x) * f(x)


def widen(rows, n, wrap):
    """rows: list of vectors; returns n resampled vectors"""
    m, out = len(rows), []
    for i in range(n):
        c = (i + .5) * m / n
        f = int(math.floor(c - 1.5))
        w = [lanczos((f + k + .5 - c) / 2.) for k in range(4)]
        tot = sum(w)
        acc = [0.] * len(rows[0])
        for k in range(4):
            j = f + k
            if wrap == 0:
                j %= m
            elif wrap == 2:
                j = min(max(j, 0), m - 1)
            if 0 <= j < m:
                acc = [a + w[k] / tot * x for a, x in zip(acc, rows[j])]
        out.append(acc)
    return out


def pow2(n):
    p = 1
    while p < n:
        p *= 2
    return p


class Ref(object):
    def __init__(self, img, wrap):
        """img: rows of numbers, img[t][s]"""
        self.wrap = wrap
        h, w = len(img), len(img[0])
        if pow2(h) != h or pow2(w) != w:
            cols = widen([list(c) for c in zip(*img)], pow2(w), wrap)
            rows = widen([list(r) for r in zip(*cols)], pow2(h), wrap)
            img = [[max(x, 0.) for x in r] for r in rows]
        self.lv = [img]
        while len(img) > 1 or len(img[0]) > 1:
            h, w = len(img), len(img[0])
            img = [[(img[2 * t][2 * s] + img[2 * t][min(2 * s + 1, w - 1)] + img[min(2 * t + 1, h - 1)][2 * s] + img[min(2 * t + 1, h - 1)][min(2 * s + 1, w - 1)]) / 4
                    for s in range(max(1, w // 2))] for t in range(max(1, h // 2))]
            self.lv.append(img)

    def texel(self, l, s, t):
        im = self.lv[l]
        h, w = len(im), len(im[0])
        if self.wrap == 0:
            return im[t % h][s % w]
        if self.wrap == 2:
            return im[min(max(t, 0), h - 1)][min(max(s, 0), w - 1)]
        return im[t][s] if 0 <= s < w and 0 <= t < h else 0.

    def tri(self, l, s, t):
        im = self.lv[l]
        s, t = s * len(im[0]) - .5, t * len(im) - .5
        a, b = int(math.floor(s)), int(math.floor(t))
        ds, dt = s - a, t - b
        return (1 - ds) * ((1 - dt) * self.texel(l, a, b) + dt * self.texel(l, a, b + 1)) + ds * ((1 - dt) * self.texel(l, a + 1, b) + dt * self.texel(l, a + 1, b + 1))

    def iso(self, s, t, w):
        n = len(self.lv)
        l = n - 1 + math.log(max(w, 1e-5), 2)
        if l < 0:
            return self.tri(0, s, t)
        if l >= n - 1:
            return self.lv[-1][0][0]
        i = int(l)
        return (1 - (l - i)) * self.tri(i, s, t) + (l - i) * self.tri(i + 1, s, t)

    def ell(self, l, s, t, a, b):
        if l >= len(self.lv):
            return self.lv[-1][0][0]
        im = self.lv[l]
        h, w = len(im), len(im[0])
        s, t = s * w - .5, t * h - .5
        a, b = (a[0] * w, a[1] * h), (b[0] * w, b[1] * h)
        A, B, C = a[1] ** 2 + b[1] ** 2 + 1, -2 * (a[0] * a[1] + b[0] * b[1]), a[0] ** 2 + b[0] ** 2 + 1
        F = A * C - B * B / 4
        ru, rv = int(math.sqrt(C)) + 2, int(math.sqrt(A)) + 2
        num = den = 0.
        for i in range(int(math.floor(s)) - ru, int(math.floor(s)) + ru + 2):
            for j in range(int(math.floor(t)) - rv, int(math.floor(t)) + rv + 2):
                r2 = (A * (i - s) ** 2 + B * (i - s) * (j - t) + C * (j - t) ** 2) / F
                if r2 < 1:
                    g = math.exp(-2 * r2) - math.exp(-2.)
                    num, den = num + g * self.texel(l, i, j), den + g
        return num / den

    def ewa(self, s, t, a, b, aniso):
        if a[0] ** 2 + a[1] ** 2 < b[0] ** 2 + b[1] ** 2:
            a, b = b, a
        big, small = math.hypot(*a), math.hypot(*b)
        if 0 < small * aniso < big:
            k = big / (small * aniso)
            b, small = (b[0] * k, b[1] * k), small * k
        if small == 0:
            return self.tri(0, s, t)
        l = max(0., len(self.lv) - 1 + math.log(small, 2))
        i = int(l)
        return (1 - (l - i)) * self.ell(i, s, t, a, b) + (l - i) * self.ell(i + 1, s, t, a, b)
