"""R02: render tasks running at the same time."""
from mc import sched
sched.install()
sched.PRIVATE_INIT = True
sched.COARSE = True
import contextlib
import io
import os
import shutil
import tempfile
import numpy as np


# every task has its own stream of random numbers: what is drawn does not depend on the schedule
class Streams(object):
    def __init__(self):
        self.rs, self.task = {}, None

    def reset(self):
        self.rs = {}

    def cur(self):
        k = self.task
        if k is None and sched._ctl is not None:
            k = sched._ctl.me()
        if k not in self.rs:
            self.rs[k] = np.random.RandomState(7 + 5 * (k if k is not None else -1))
        return self.rs[k]


ST = Streams()


def _mk(name):
    return lambda *a, **k: getattr(ST.cur(), name)(*a, **k)


for _n in ('rand', 'randn', 'randint', 'random', 'random_sample', 'ranf', 'sample', 'uniform', 'shuffle', 'permutation', 'choice', 'normal', 'random_integers'):
    if hasattr(np.random, _n):
        setattr(np.random, _n, _mk(_n if hasattr(np.random.RandomState, _n) else 'random_sample'))
from mc.pt import *
import checks.I01 as ig
import pytracer.utility.imageio as iio
from pytracer import Spectrum, FLOAT
from pytracer.spectral.spectrum import RGBSpectrum
from pytracer.aggregate import GridAccel, BVH, SimpleAggregate, GeometricPrimitive, TransformedPrimitive
from pytracer.camera import PerspectiveCamera
from pytracer.film import ImageFilm
from pytracer.filter import BoxFilter, TriangleFilter
from pytracer.light import PointLight, DiffuseAreaLight
from pytracer.material import MatteMaterial, PlasticMaterial
from pytracer.renderer import SamplerRenderer, SamplerRendererTask
from pytracer.sampler import StratifiedSampler, Sample
from pytracer.scene import Scene
from pytracer.shape import create_triangle_mesh, Sphere
from pytracer.texture import ConstantTexture, ImageTexture, UVMapping2D
from pytracer.transform import Transform, AnimatedTransform

RULE = ('every schedule of two or three render tasks of one small image within the preemption bound, switching before every function entry of the rendering code, every element store, every mutating method, every lock operation '
        'and every access to an attribute some task stores on an object that existed before; scenes with lazily refined grids, filtered image textures, moving instances, mirrors and emitters; states are (scene, schedule)')
ASSUME = ['every task draws its random numbers from its own seeded stream, so that the sequential picture is the only right one', 'code of the value types (vectors, spectra, transforms, utilities) offers switch points at stores to objects that existed before the tasks, not at every call']
ROOT = os.path.dirname(pytracer.__file__)
FILES = tuple('pytracer' + os.path.join(d, f)[len(ROOT):] for d, _, fs in os.walk(ROOT) for f in sorted(fs) if f.endswith('.py'))
sched.CALLS = tuple(f for f in FILES if f.split('/')[1] in ('renderer', 'integrator', 'film', 'aggregate', 'sampler', 'camera', 'light', 'material', 'texture', 'scene') or f.endswith('bsdf.py'))
_tmp = []


def picture_file():
    """a small texture image, written once per process"""
    if not _tmp:
        import atexit
        import PIL.Image
        d = tempfile.mkdtemp()
        atexit.register(shutil.rmtree, d, True)
        _tmp.append(os.path.join(d, 'tex.png'))
        px = [[[(40 * x + 17 * y) % 256, (90 * y + 5 * x) % 256, 255 - 50 * x] for x in range(4)] for y in range(4)]
        PIL.Image.fromarray(np.array(px, dtype=np.uint8)).save(_tmp[0])
    return _tmp[0]


def rgb(*c):
    return Spectrum.from_rgb(list(c))


def const(*c):
    return ConstantTexture(rgb(*c)) if len(c) == 3 else ConstantTexture(*c)


def tri(pts, c=(0., 0., 0.), n=2):
    t = Transform.translate(V(c))
    uv = [0., 0., 1., 0., 1., 1., 0., 1.]
    idx = [0, 1, 2, 0, 2, 3]
    return create_triangle_mesh(t, t.inverse(), False, {'indices': idx, 'P': [x for p in pts for x in p], 'uv': uv})


def ball(c, r):
    t = Transform.translate(V(c))
    return Sphere(t, t.inverse(), False, r, -r, r, 360.)


FLOOR = [(-3., -3., 0.), (3., -3., 0.), (3., 3., 0.), (-3., 3., 0.)]


def image(trilinear):
    getattr(ImageTexture, '_ImageTexture__clear__cache__', getattr(ImageTexture, '__clear__cache__', lambda: None))()
    return ImageTexture(Spectrum, RGBSpectrum, UVMapping2D(1., 1., 0., 0.), picture_file(), trilinear=trilinear, scale=1 / 255.)


def matte(t):
    return MatteMaterial(t, const(0.))


def point():
    return PointLight(Transform.translate(V((1., .7, 2.5))), rgb(6., 4., 2.))


def grid_world(tri_):
    """one mesh, refined on first use, carrying a filtered picture, and a sphere"""
    img = matte(image(tri_))
    prims = [GeometricPrimitive(tri(FLOOR), img), GeometricPrimitive(ball((.3, .2, .5), .4), matte(const(.5, .6, .7)))]
    return Scene(GridAccel(prims, False), [point()], None)


class Inst(TransformedPrimitive):
    """the box of the whole motion is worked out once per process only"""
    box = []

    def world_bound(self):
        if not self.box:
            self.box.append(super().world_bound())
        return BBox(self.box[0].pMin, self.box[0].pMax)


def moving_world():
    """an instance that moves while the shutter is open, over a hierarchy"""
    a, b = Transform.translate(V((0., 0., 0.))), Transform.translate(V((.6, .2, .3))) * Transform.rotate_z(40.)
    inst = Inst(GeometricPrimitive(ball((.0, .0, .5), .9), matte(const(.8, .3, .2))), AnimatedTransform(a, 0., b, 1.))
    agg = BVH([GeometricPrimitive(tri(FLOOR), PlasticMaterial(const(.3, .4, .5), const(.4, .4, .4), const(.2))), inst], 1, 'sah')
    return Scene(agg, [point()], None)


def lamp_world():
    """emitters and delta lights, chosen among"""
    return ig.build(ig.SC['lamp'], ['point', 'spot'], True)


def glass_world():
    return ig.build(ig.SC['bead'], ['point'], False)


WORLDS = {'ewa': lambda: grid_world(False), 'trilinear': lambda: grid_world(True), 'moving': moving_world, 'lamp': lamp_world, 'glass': glass_world}
# world, integrator, depth, image size, samples per pixel, tasks
SCEN = [
    ('ewa', 'all', 1, (2, 1), (1, 1), 2, 'box'),
    ('trilinear', 'whitted', 1, (2, 1), (1, 1), 2, 'tri'),
    ('moving', 'all', 1, (2, 1), (1, 1), 2, 'box'),
    ('lamp', 'one', 2, (2, 1), (1, 1), 2, 'box'),
    ('lamp', 'path', 2, (2, 1), (1, 1), 2, 'box'),
    ('glass', 'whitted', 2, (2, 1), (1, 1), 2, 'tri'),
    ('ewa', 'path', 1, (3, 1), (1, 1), 3, 'box'),
    ('moving', 'all', 1, (2, 1), (2, 1), 2, 'box'),
]
SH = 8


def CASES(tier):
    cs = []
    for i in range(6 if tier == 'quick' else len(SCEN)):
        for k in range(SH):
            cs.append(dict(k='sched', s=i, bound=1 if tier == 'quick' else 2, shard=[k, SH]))
    return cs


class Film(ImageFilm):
    pass


def world(i):
    wn, g, dep, (w, h), spp, n, filt = SCEN[i]
    sched.reset()
    ST.reset()
    scene = WORLDS[wn]()
    film = ImageFilm(w, h, BoxFilter(.5, .5) if filt == 'box' else TriangleFilter(1., 1.), [0., 1., 0., 1.], 'unused.png')
    tr = Transform.look_at(Pt((1.1, 1.9, 1.7)), Pt((0., .1, .5)), V((0., 0., 1.)))
    cam = PerspectiveCamera(AnimatedTransform(tr, 0., tr, 1.), [-1., 1., -1., 1.], 0., 1., 0., 1e6, 50., film)
    x0, x1, y0, y1 = (0, w, 0, h)
    sam = StratifiedSampler(x0, x1, y0, y1, spp[0], spp[1], wn == 'moving', 0., 1.)
    it = ig.integ(g, dep)
    ren = SamplerRenderer(sam, cam, it, None)
    it.preprocess(scene, cam, ren)
    sample = Sample(sam, it, None, scene)
    log = []
    add_ = film.add_sample

    def spy(smp, l):
        log.append((float(smp.imageX), float(smp.imageY), tuple(L(l))))
        return add_(smp, l)
    film.add_sample = spy
    wd = dict(scene=scene, film=film, cam=cam, sam=sam, it=it, ren=ren, sample=sample, log=log)
    return wd, [SamplerRendererTask(scene, ren, cam, sam, sample, False, k, n) for k in range(n)]


def flat(film):
    old = iio.write_image
    got = []
    iio.write_image = lambda *a, **k: got.append(a[1] if len(a) > 1 else k['rgb'])
    try:
        film.write_image()
    finally:
        iio.write_image = old
    return [float(v) for v in np.ravel(got[0])]


@contextlib.contextmanager
def fixed():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


# ---- which attributes of objects that were there before do the tasks store?
def reach(root):
    seen, keep, todo = set(), [], [root]
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, (str, bytes, int, float, complex, type(None), type(os), type(reach))):
            continue
        seen.add(id(o))
        keep.append(o)
        if isinstance(o, dict):
            todo += list(o.values())
        elif isinstance(o, (list, tuple, set, frozenset)):
            todo += list(o)
        elif isinstance(o, np.ndarray) and o.dtype == object:
            todo += list(o.ravel())
        elif isinstance(o, type) and not o.__module__.startswith('pytracer'):
            continue
        if hasattr(o, '__dict__'):
            todo += [v for k, v in list(vars(o).items())]
            todo.append(type(o))
    return seen, keep


def classes():
    out, todo = set(), [object]
    while todo:
        for c in todo.pop().__subclasses__() if True else ():
            if c is type or c in out:
                continue
            out.add(c)
            if c is not type:
                try:
                    todo.append(c)
                except TypeError:
                    pass
    return [c for c in out if getattr(c, '__module__', '').startswith('pytracer') and not issubclass(c, (type, np.ndarray, BaseException))]


def learn(i, order=1):
    wd, fns = world(i)
    old, keep = reach(wd)
    names = set()
    cl = classes()
    before = {c: dict(vars(c)) for c in cl}

    def note(self, k, v):
        if id(self) in old:
            names.add(k)
        object.__setattr__(self, k, v)
    mine = []
    for c in cl:
        if '__setattr__' not in vars(c) and c.__setattr__ is object.__setattr__:
            mine.append(c)
    for c in mine:
        c.__setattr__ = note
    try:
        for k, f in list(enumerate(fns))[::order]:
            ST.task = k
            f()
    finally:
        ST.task = None
        for c in mine:
            del c.__setattr__
    for c in cl:
        for k, v in vars(c).items():
            if k not in before[c] or before[c][k] is not v:
                names.add(k)
    # written by every constructor, and only there
    names -= {'next_primitiveId', 'next_shapeId', '__setattr__'}
    return frozenset(names), wd


def same(log, wlog):
    return len(log) == len(wlog) and all(a[:2] == b[:2] and max(abs(x - y) for x, y in zip(a[2], b[2])) <= 1e-9 for a, b in zip(log, wlog))


def close(got, want):
    return len(got) == len(want) and all(abs(a - b) <= 1e-9 * (1 + abs(b)) for a, b in zip(got, want))


def RUN(case, ctx):
    i = case['s']
    with fixed():
        shared, wd = learn(i)
        other = learn(i, -1)[1]
        want, wlog = flat(wd['film']), sorted(wd['log'])
    tag = 'scenario %d (%s)' % (i, ' '.join(map(str, SCEN[i])))
    _, _, _, (w, h), spp, n, filt = SCEN[i]
    ctx.check(len(wlog) == w * h * spp[0] * spp[1], 'samples', '%s: %r' % (tag, wlog))
    ctx.check(len(set(e[2] for e in wlog)) > 1 and any(sum(e[2]) > 0 for e in wlog), 'flat-scenario', '%s: %r' % (tag, wlog))

    ctx.check(same(sorted(other['log']), wlog) and close(flat(other['film']), want), 'order-of-tasks', lambda: '%s: %r, the other way round %r' % (tag, wlog, sorted(other['log'])))

    def judge(wd, r):
        where = lambda: '%s schedule %r' % (tag, [c for _, _, c in r.trace])
        ctx.check(not r.deadlock, 'deadlock', where)
        if r.deadlock:
            return False
        bad = [e for e in r.errors if e is not None]
        ctx.check(not bad, 'thread-error', lambda: '%s: %r' % (where(), bad))
        log = sorted(wd['log'])
        ctx.check(same(log, wlog), 'radiance',
                  lambda: '%s: got %r, want %r' % (where(), log, wlog))
        got = flat(wd['film'])
        ctx.check(close(got, want), 'picture', lambda: '%s: got %r, want %r' % (where(), got, want))
        ctx.check(not sched.any_held(), 'lock-held', where)
        ctx.state(i, tuple(c for _, _, c in r.trace))
        ctx.trace()
        ctx.step(r.steps)

    with fixed():
        n, pts, full = sched.explore(lambda: world(i), judge, FILES, case['bound'], shared=shared, shard=tuple(case['shard']))
    ctx.check(full, 'incomplete', tag)
    ctx.outcome('%s: shared %s' % (tag, sorted(shared)))
    ctx.sample(case)
    if os.environ.get('MC_SHOW'):
        print(tag, n, pts, sorted(shared))
