"""Small scenes of real shapes, every kind of aggregate over them, and a brute-force scan (A01, A02, A04)."""
import contextlib
import io
from mc.pt import *
from mc import shapes as sh
from pytracer.aggregate import (Intersection, GeometricPrimitive, SimpleAggregate, GridAccel, BVH)
from pytracer.shape import Sphere, Cylinder, Disk, TriangleMesh, LoopSubdiv, create_triangle_mesh, create_loop_subdiv
from pytracer.transform import Transform


def ball(c, r=.5):
    t = Transform.translate(V(c))
    return Sphere(t, t.inverse(), False, r, -r, r, 360.)


def disk(c, r=.5, axis=2):
    t = Transform.translate(V(c))
    if axis == 0:
        t = t * Transform.rotate_y(90.)
    elif axis == 1:
        t = t * Transform.rotate_x(90.)
    return Disk(t, t.inverse(), False, 0., r, 0., 360.)


def pipe(c, r=.4, h=.5):
    t = Transform.translate(V(c)) * Transform.rotate(40., V((1., 1., .3)))
    return Cylinder(t, t.inverse(), False, r, -h, h, 360.)


def mesh(pts, tris, c=(0., 0., 0.)):
    t = Transform.translate(V(c))
    return create_triangle_mesh(t, t.inverse(), False, {'indices': [i for f in tris for i in f], 'P': [x for p in pts for x in p]})


def quad(a, b, c, d):
    return mesh([a, b, c, d], [(0, 1, 2), (0, 2, 3)])


def gmesh(n, z, c=(0., 0., 0.)):
    pts = [(x - n / 2., y - n / 2., z(x, y)) for y in range(n + 1) for x in range(n + 1)]
    tris = []
    for y in range(n):
        for x in range(n):
            a = y * (n + 1) + x
            tris += [(a, a + 1, a + n + 2), (a, a + n + 2, a + n + 1)]
    return mesh(pts, tris, c)


def subdiv(c):
    t = Transform.translate(V(c))
    return create_loop_subdiv(t, t.inverse(), False, {'nlevels': 1, 'indices': [0, 2, 1, 0, 1, 3, 1, 2, 3, 2, 0, 3],
                                                      'P': [1., 1., 1., -1., -1., 1., -1., 1., -1., 1., -1., -1.]})


SCENES = {
    'empty': lambda: [],
    'ball': lambda: [ball((0., 0., 0.), 1.)],
    'plate': lambda: [disk((0., 0., 0.), 1.)],
    'tri': lambda: [mesh([(-1., -1., 0.), (1., -1., 0.), (0., 1., 0.)], [(0, 1, 2)])],
    'two': lambda: [ball((-.3, 0., 0.), .75), ball((.4, .1, .2), .5)],
    'apart': lambda: [ball((-1.5, 0., 0.), .5), ball((1.5, .25, -.5), .75), ball((0., 1.5, .5), .25)],
    'onion': lambda: [ball((0., 0., 0.), r) for r in (1., .5, .75, .25, 1.25, .125)],
    'target': lambda: [disk((0., 0., 0.), r) for r in (1., .25, .5)] + [disk((1.5, 0., 0.), .5), disk((-1.5, .5, 0.), .5), disk((0., -1.5, 0.), .25)],
    'row': lambda: [ball((x * .75 - 2., 0., 0.), .3) for x in (0, 3, 1, 5, 2, 4)],
    'column': lambda: [disk((0., 0., z * .5), .5 + .1 * z) for z in (2, -1, 0, 1, -2, 3, -3, 4, -4)],
    'twins': lambda: [ball((.5, 0., 0.), .5), ball((.5, 0., 0.), .5), ball((-1., 0., 0.), .5), ball((.5, 0., 0.), .5), ball((-1., 0., 0.), .5), ball((-1., 0., 0.), .5)],
    'galaxy': lambda: [ball((.1 * i, .07 * i * i, -.05 * i), .06) for i in range(7)] + [ball((40., 3., -7.), 2.), ball((-90., 10., 30.), 5.)],
    'box': lambda: [quad((-2., -2., -2.), (2., -2., -2.), (2., 2., -2.), (-2., 2., -2.)), quad((-2., -2., -2.), (-2., -2., 2.), (-2., 2., 2.), (-2., 2., -2.)),
                    quad((2., -2., -2.), (2., -2., 2.), (2., 2., 2.), (2., 2., -2.)), quad((-2., -2., -2.), (2., -2., -2.), (2., -2., 2.), (-2., -2., 2.)),
                    ball((0., -1., 0.), 1.), pipe((1., .5, .5))],
    'hills': lambda: [gmesh(3, lambda x, y: .3 * ((x * y) % 2))],
    'floor': lambda: [gmesh(2, lambda x, y: 0.), ball((.3, .2, 1.), .5)],
    'blob': lambda: [subdiv((0., 0., 0.)), ball((0., 0., 0.), .3)],
    'mixed': lambda: [pipe((0., 0., 0.)), disk((.5, .5, -.5), .75, 0), gmesh(2, lambda x, y: .2 * x, (0., 0., -1.)), ball((-1., -1., 1.), .5), disk((0., 0., 1.5), .5, 1), ball((1., 1., 0.), .25)],
    'fence': lambda: [disk((x * .5, 0., 0.), .4, 0) for x in range(-4, 5)],
    'zeno': lambda: [ball((2. ** -k, 0., .001 * k), .2 * 2. ** -k) for k in range(1, 40)],
}
_sc = {}


def objects(name):
    """(shape, parts) list; parts are the shapes rays can be tested against"""
    if name not in _sc:
        _sc[name] = [(s, parts(s)) for s in SCENES[name]()]
    return _sc[name]


def parts(s):
    out, todo = [], [s]
    while todo:
        x = todo.pop()
        if x.can_intersect():
            out.append(x)
        else:
            todo += x.refine()
    return out


class Mat(object):
    """a label; never asked to scatter"""

    def __init__(self, k):
        self.k = k


CONFIGS = ['simple', 'list', 'grid', 'lazygrid'] + ['bvh-%s-%d' % (m, k) for m in ('sah', 'middle') for k in (1, 2, 4, 8)] + ['bvh-SAH-0', 'bvh-Middle-3', 'bvh-none-4', 'bvh']


def build(conf, shapes, order=None):
    """an aggregate of the kind over freshly made primitives; material k labels object k of the scene"""
    n = len(shapes)
    order = list(range(n)) if order is None else order
    prims = [GeometricPrimitive(shapes[k], Mat(k)) for k in order]
    return of(conf, prims)


def of(conf, prims):
    with contextlib.redirect_stdout(io.StringIO()):
        if conf == 'simple':
            return SimpleAggregate(prims, True)
        if conf == 'list':
            flat = []
            for p in prims:
                p.full_refine(flat)
            return SimpleAggregate(flat, False)
        if conf == 'grid':
            return GridAccel(prims, True)
        if conf == 'lazygrid':
            return GridAccel(prims, False)
        if conf == 'bvh':
            return BVH(prims)
        _, m, k = conf.split('-')
        return BVH(prims, int(k), m)


def orders(n):
    r = list(range(n))
    out = [r, r[::-1], r[n // 2:] + r[:n // 2], r[::2] + r[1::2]]
    res = []
    for o in out:
        if o not in res:
            res.append(o)
    return res


def scan(name, o, d, mint, maxt):
    """[(t, object index)] of every object hit in the interval, nearest first"""
    out = []
    for k, (s, ps) in enumerate(objects(name)):
        best = None
        for p in ps:
            r = Ray(Pt(o), V(d), mint, maxt)
            hit, t, e, dg = p.intersect(r)
            if hit and (best is None or t < best):
                best = float(t)
        if best is not None:
            out.append((best, k))
    return sorted(out)


def axisish(d):
    return sum(1 for x in d if x != 0.) == 1


TARGETS = [(0., 0., 0.), (.3, .2, .1), (-.4, .5, -.2), (.5, -.6, .7), (-1.4, .1, .05), (1.6, .3, -.4), (.1, 1.3, .4)]
ORIG = [(3., .2, .1), (-2.7, -.4, .3), (.3, 2.9, .2), (-.1, -3.1, .6), (.2, .3, 3.3), (-.3, .1, -2.9), (2.1, 2.3, 1.9), (.05, .1, -.03), (.5, .25, .3), (0., 0., 0.)]
AXES = [(1., 0., 0.), (-1., 0., 0.), (0., 1., 0.), (0., -1., 0.), (0., 0., 1.), (0., 0., -1.)]


def sign0(d, neg):
    return tuple(-0. if neg and x == 0. else x for x in d)


def rays(scale=1):
    """(origin, direction): generic and axis-parallel, both signs of zero"""
    out = []
    for i, o in enumerate(ORIG):
        for j, t in enumerate(TARGETS):
            d = sub(t, o)
            if norm(d) < 1e-6:
                continue
            out.append((o, tuple(mul(d, (1., .25, 3.)[(i + j) % 3]))))
    for i, d in enumerate(AXES):
        for a in (0., .25, -.5, 1., -1.):
            for b in (0., .125, 1.):
                k = [x for x in range(3) if d[x] == 0.]
                for back in (3., 0.):
                    o = [0., 0., 0.]
                    o[k[0]], o[k[1]] = a, b
                    o = sub(o, mul(d, back))
                    out.append((tuple(o), sign0(d, (i + int(back)) % 2)))
    # in one coordinate plane
    for i, (x, y) in enumerate([(1., .5), (-1., 1.), (.25, -1.), (-2., -1.)]):
        for k in range(3):
            d = [0., 0., 0.]
            d[k], d[(k + 1) % 3] = x, y
            for off in (0., .2):
                o = mul(d, -3.)
                o[(k + 2) % 3] += off
                out.append((tuple(o), sign0(tuple(d), i % 2)))
    return out[::scale]
