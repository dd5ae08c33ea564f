"""Catalogue of shapes under placements, with an analytic reference (shared by S01-S03 and the aggregate checks)."""
from mc.pt import *
from pytracer.shape import Sphere, Cylinder, Disk, TriangleMesh, Triangle
from pytracer.transform import Transform

PI2 = 2. * math.pi

# name -> list of (kind, args) ; matrices are rebuilt independently
PLACE = {
    'id': [],
    'move': [('t', (1.5, -2., .75))],
    'spin': [('r', (50., (1., 2., -1.))), ('t', (0., 1., 0.))],
    'mirror': [('s', (-1., 1., 1.))],
    'mirrot': [('t', (.5, 0., -1.)), ('r', (90., (0., 1., 0.))), ('s', (1., 1., -1.))],
    'grow': [('s', (50., 50., 50.))],
    'shrink': [('t', (.01, 0., .02)), ('s', (2e-3, 2e-3, 2e-3))],
    'skew': [('r', (30., (0., 0., 1.))), ('s', (2., .5, 1.25))],
    'mirskew': [('s', (1.5, -.5, 1.)), ('r', (120., (1., 1., 1.)))],
}
RIGID = ['id', 'move', 'spin', 'mirror', 'mirrot']
_pc = {}


def place(name):
    """(Transform, inverse Transform, matrix, inverse matrix); steps apply right to left"""
    if name not in _pc:
        t, m = Transform(), eye()
        for k, a in PLACE[name]:
            if k == 't':
                s, q = Transform.translate(V(a)), m_translate(a)
            elif k == 's':
                s, q = Transform.scale(*a), m_scale(a)
            else:
                s, q = Transform.rotate(a[0], V(a[1])), m_rotate(a[0], a[1])
            t, m = t * s, mm(m, q)
        _pc[name] = (t, t.inverse(), m, minv(m))
    return _pc[name]


def deg(a):
    return math.radians(a)


class Quadric(object):
    """reference for the clipped quadrics; kind in sphere, cyl, disk"""

    def __init__(self, kind, p):
        self.kind, self.p = kind, p
        if kind == 'sphere':
            self.r, z0, z1, pm = p
            self.z0, self.z1 = max(min(z0, z1), -self.r), min(max(z0, z1), self.r)
            self.t0, self.t1 = math.acos(self.z0 / self.r), math.acos(self.z1 / self.r)
        elif kind == 'cyl':
            self.r, z0, z1, pm = p
            self.z0, self.z1 = min(z0, z1), max(z0, z1)
        else:
            self.h, self.r, self.ri, pm = p
        self.pm = deg(min(360., max(0., pm)))
        self.full = pm >= 360.

    def make(self, o2w, w2o, ro):
        return {'sphere': Sphere, 'cyl': Cylinder, 'disk': Disk}[self.kind](o2w, w2o, ro, *self.p)

    def roots(self, o, d):
        """[(t, margin)] all crossings with the clipped surface in object space; margin: distance (relative) from any clip edge"""
        k = self.kind
        out = []
        if k == 'disk':
            if d[2] == 0.:
                return out, (0. if abs(o[2] - self.h) < 1e-7 * self.r else 1.)
            ts = [(self.h - o[2]) / d[2]]
            sil = abs(d[2]) / norm(d)
        else:
            n = 3 if k == 'sphere' else 2
            a = sum(x * x for x in d[:n])
            b = sum(x * y for x, y in zip(o[:n], d[:n]))
            if a < 1e-18 * dot(d, d):
                return out, 1. if abs(math.hypot(o[0], o[1]) - self.r) > 1e-6 * self.r else 0.
            # distance of the line from centre / axis
            m = [x - b / a * y for x, y in zip(o[:n], d[:n])]
            h2 = dot(m, m)
            sil = abs(math.sqrt(h2) - self.r) / self.r
            if h2 >= self.r * self.r:
                return out, sil
            w = math.sqrt((self.r * self.r - h2) / a)
            ts = [-b / a - w, -b / a + w]
        for t in ts:
            q = [x + t * y for x, y in zip(o, d)]
            e, inside = 1., True
            rho = math.hypot(q[0], q[1])
            if k == 'disk':
                e = min(e, abs(rho - self.r) / self.r)
                inside = rho <= self.r
                if self.ri > 0:
                    e = min(e, abs(rho - self.ri) / self.r)
                    inside = inside and rho >= self.ri
            else:
                if not (k == 'sphere' and self.z0 <= -self.r):
                    e = min(e, abs(q[2] - self.z0) / self.r)
                    inside = inside and q[2] >= self.z0
                if not (k == 'sphere' and self.z1 >= self.r):
                    e = min(e, abs(q[2] - self.z1) / self.r)
                    inside = inside and q[2] <= self.z1
            if not self.full:
                phi = math.atan2(q[1], q[0]) % PI2
                e = min(e, rho / self.r, abs(phi - self.pm) * rho / self.r, phi * rho / self.r, (PI2 - phi) * rho / self.r)
                inside = inside and phi <= self.pm
            out.append((t, e, inside))
        return out, sil

    def at(self, u, v):
        """surface point of the parametrisation"""
        phi = u * self.pm
        if self.kind == 'sphere':
            th = self.t0 + v * (self.t1 - self.t0)
            return [self.r * math.sin(th) * math.cos(phi), self.r * math.sin(th) * math.sin(phi), self.r * math.cos(th)]
        if self.kind == 'cyl':
            return [self.r * math.cos(phi), self.r * math.sin(phi), self.z0 + v * (self.z1 - self.z0)]
        rho = self.r - v * (self.r - self.ri)
        return [rho * math.cos(phi), rho * math.sin(phi), self.h]

    def normal(self, q):
        """unit normal of the parametrisation (before reversal)"""
        if self.kind == 'sphere':
            return unit(q)
        if self.kind == 'cyl':
            return unit([q[0], q[1], 0.])
        return [0., 0., 1.]

    def area(self):
        if self.kind == 'disk':
            return .5 * self.pm * (self.r ** 2 - self.ri ** 2)
        return self.pm * self.r * (self.z1 - self.z0)

    def areacoord(self, q):
        """area-uniform coordinates in the unit square"""
        a = (math.atan2(q[1], q[0]) % PI2) / self.pm
        if self.kind == 'disk':
            return a, (q[0] ** 2 + q[1] ** 2 - self.ri ** 2) / (self.r ** 2 - self.ri ** 2)
        return a, (q[2] - self.z0) / (self.z1 - self.z0)

    def off(self, q):
        """distance of an object-space point from the clipped surface (relative), ignoring seams"""
        rho = math.hypot(q[0], q[1])
        phi = math.atan2(q[1], q[0]) % PI2
        e = 0.
        if not self.full and phi > self.pm:
            e = max(e, min(phi - self.pm, PI2 - phi) * rho)
        if self.kind == 'disk':
            e = max(e, abs(q[2] - self.h), rho - self.r, self.ri - rho)
        else:
            e = max(e, abs((norm(q) if self.kind == 'sphere' else rho) - self.r), self.z0 - q[2], q[2] - self.z1)
        return e / self.r


QUADS = {
    'ball': ('sphere', (1., -1., 1., 360.)),
    'ball2': ('sphere', (2., -5., 5., 360.)),
    'cap': ('sphere', (1., .3, 1., 360.)),
    'bowl': ('sphere', (1., -1., -.2, 360.)),
    'band': ('sphere', (1., .6, -.5, 360.)),
    'wedge': ('sphere', (1., -1., 1., 90.)),
    'melon': ('sphere', (1.5, -1.5, 1.5, 250.)),
    'chip': ('sphere', (1., -.4, .8, 200.)),
    'pipe': ('cyl', (1., -1., 1., 360.)),
    'ring': ('cyl', (1.2, .9, .2, 360.)),
    'gutter': ('cyl', (1., -1., 1., 180.)),
    'shell': ('cyl', (.8, -.5, 1.5, 290.)),
    'plate': ('disk', (0., 1., 0., 360.)),
    'washer': ('disk', (.5, 1.25, .5, 360.)),
    'pie': ('disk', (-.25, 1., 0., 100.)),
    'arc': ('disk', (.25, 1., .4, 300.)),
}

# triangles: three object-space vertices and uv or None
TRIS = {
    'std': ([(-1., -1., 0.), (1., -1., .2), (0., 1., -.1)], None),
    'uv': ([(-1., -1., 0.), (1., -1., .2), (0., 1., -.1)], [.1, .2, .9, .3, .4, .8]),
    'uvflip': ([(-1., -.7, .3), (1., -.8, .2), (.1, 1., .4)], [.1, .2, .4, .8, .9, .3]),
    'uvflat': ([(-1., -1., 0.), (1., -1., .2), (0., 1., -.1)], [.5, .5, .5, .5, .5, .5]),
    'uvline': ([(-.3, -1., -1.), (.2, 1., -1.), (0., .2, 1.3)], [0., .25, .5, .25, 1., .25]),
    'side': ([(0., -1., -1.), (0., 1., -1.), (0., .2, 1.3)], [0., 0., 1., 0., 0., 1.]),
    'thin': ([(-1.2, 0., .3), (1.2, .05, .3), (1.2, .25, .5)], None),
}


class Tri(object):
    kind = 'tri'

    def __init__(self, name):
        self.v, self.uv = TRIS[name]

    def make(self, o2w, w2o, ro, pad=True, atex=None, N=None, S=None):
        """the triangle sits second in a mesh whose vertex order differs from its index order"""
        v = [Pt(q) for q in self.v]
        far = [Pt((9., 9., 9.)), Pt((8., 9., 9.))]
        P = [v[2], far[0], v[0], far[1], v[1]]
        vi = [1, 3, 0, 2, 4, 0]
        uv = None
        if self.uv is not None:
            u = self.uv
            uv = [u[4], u[5], 0., .5, u[0], u[1], .25, .75, u[2], u[3]]
        shuffle = lambda a, fill: None if a is None else [a[2], fill, a[0], fill, a[1]]
        m = TriangleMesh(o2w, w2o, ro, 2, 5, vi, P, shuffle(N, N and N[0]), shuffle(S, S and S[0]), uv, atex)
        self.mesh = m
        return m.refine()[1]

    def bary(self, q):
        a, b, c = self.v
        e1, e2, d = sub(b, a), sub(c, a), sub(q, a)
        n = cross(e1, e2)
        nn = dot(n, n)
        b1 = dot(cross(d, e2), n) / nn
        b2 = dot(cross(e1, d), n) / nn
        return 1. - b1 - b2, b1, b2

    def roots(self, o, d):
        a, b, c = self.v
        n = cross(sub(b, a), sub(c, a))
        k = dot(n, d)
        sil = abs(k) / (norm(n) * norm(d))
        if sil < 1e-9:
            return [], 0. if abs(dot(n, sub(a, o))) < 1e-7 * norm(n) else 1.
        t = dot(n, sub(a, o)) / k
        q = [x + t * y for x, y in zip(o, d)]
        w = self.bary(q)
        return [(t, min(abs(x) for x in w), all(x >= 0 for x in w))], sil

    def uvs(self):
        return [(0., 0.), (1., 0.), (1., 1.)] if self.uv is None else [tuple(self.uv[2 * i:2 * i + 2]) for i in range(3)]

    def at(self, u, v):
        """inverse of the affine coordinate map (None when it is singular)"""
        (u0, v0), (u1, v1), (u2, v2) = self.uvs()
        det = (u1 - u0) * (v2 - v0) - (u2 - u0) * (v1 - v0)
        if det == 0.:
            return None
        b1 = ((u - u0) * (v2 - v0) - (u2 - u0) * (v - v0)) / det
        b2 = ((u1 - u0) * (v - v0) - (u - u0) * (v1 - v0)) / det
        return [(1 - b1 - b2) * x + b1 * y + b2 * z for x, y, z in zip(*self.v)]

    def uvsign(self):
        (u0, v0), (u1, v1), (u2, v2) = self.uvs()
        det = (u1 - u0) * (v2 - v0) - (u2 - u0) * (v1 - v0)
        return 0 if det == 0 else (1. if det > 0 else -1.)

    def normal(self, q):
        a, b, c = self.v
        return unit(cross(sub(b, a), sub(c, a)))

    def area(self):
        a, b, c = self.v
        return .5 * norm(cross(sub(b, a), sub(c, a)))


def reference(name):
    if name in QUADS:
        return Quadric(*QUADS[name])
    return Tri(name[4:])


NAMES = list(QUADS) + ['tri:' + k for k in TRIS]

ORIGINS = [(2.4, .13, .21), (-2.2, -.4, .35), (.17, 2.6, -.3), (.3, -2.5, .45), (.21, .33, 2.7), (-.37, .11, -2.4),
           (1.9, 2.1, 1.7), (-1.8, 1.6, -2.), (.1, -.2, .15), (0., 0., 0.), (0., 0., 3.), (3., 0., 0.), (.4, .55, .25), (0., -3., .5)]
TARGETS = [(0., 0., 0.), (.12, .23, .05), (-.35, .3, .6), (.5, -.45, -.3), (-.6, -.55, .4), (.7, .65, -.55), (0., .62, .35), (.8, -.1, .72),
           (-.15, -.85, -.7), (0., 0., 1.), (.31, .9, 0.), (2., 1.4, .3), (-.95, .1, .5)]


def rays():
    """object-space (origin, direction) lattice"""
    out = []
    for i, o in enumerate(ORIGINS):
        for j, t in enumerate(TARGETS):
            d = sub(t, o)
            if norm(d) < 1e-6:
                continue
            k = [1., 1. / norm(d), .03, 20.][(i + 3 * j) % 4]
            out.append((list(o), mul(d, k)))
    return out
