"""N01: the scene-description protocol against a persistent-stack model."""
import contextlib
import io
from mc.pt import *
from mc.core import isclose
import pytracer.interface as inter
from pytracer.interface import *
import pytracer.interface.api as api
from pytracer.transform import Transform

RULE = ('every sequence of scene-description calls up to the depth bound over four alphabets (blocks; names and camera; lifecycle; everything), replayed from '
        'process start state on the real module and compared call by call with a persistent-stack model; distinct states are model states; '
        'plus every push/enum/fetch history of the parameter container')
ASSUME = ['renderer, camera and film setters are exercised for the values they record, no scene is instantiated']

# the colour tables take 0.2 s to build and are the same every time (X01 checks them): build once, count calls
pytracer.Spectrum.init()
INITS = [0]


def _counted():
    INITS[0] += 1


pytracer.Spectrum.init = staticmethod(_counted)

CT = [[0., -2., 0., 1.], [1., 0., 0., -3.], [0., 0., 1., 2.], [0., 0., 0., 1.]]
EYE, AT, UP = [1., 2., 3.], [4., 2., 3.], [0., 0., 1.]


def look():
    z = unit(sub(AT, EYE))
    x = unit(cross(UP, z))
    y = cross(z, x)
    m = eye()
    for i in range(3):
        m[i][0], m[i][1], m[i][2], m[i][3] = x[i], y[i], z[i], EYE[i]
    return m


I4 = eye()
XF = {
    'tr': (lambda: api.trans_translate([1., 2., 3.]), m_translate((1, 2, 3))),
    'ro': (lambda: api.trans_rotate(90., [0., 0., 1.]), m_rotate(90, (0, 0, 1))),
    'sc': (lambda: api.trans_scale([2., 1., -1.]), m_scale((2, 1, -1))),
    # the scene moves to the camera: world to camera, as for every transformation before the camera
    'la': (lambda: api.trans_look_at(EYE, AT, UP), minv(look())),
    'co': (lambda: api.trans_concat(Transform(np.array(CT))), CT),
}
SETTERS = ['pixel_filter', 'film', 'sampler', 'aggregator', 'renderer', 'surface', 'volume']
FIELD = dict(pixel_filter='filter')

ALPHABETS = {
    'blocks': ['tr', 'sc', 'gs', 'ab', 'ae', 'tb', 'te'],
    'names': ['tr', 'sc', 'ab', 'te', 'ae', 'na', 'sa', 'cam', 'sw'],
    'life': ['init', 'clean', 'tr', 'wb', 'ab', 'ae', 'na', 'sa', 'sw', 'cam'],
    'all': ['tr', 'ro', 'sc', 'la', 'co', 'set', 'id', 'gs', 'ab', 'ae', 'tb', 'te', 'na', 'nb', 'sa', 'sb', 'sw', 'sx', 'cam', 'sc_cam', 'wb',
            'init', 'clean', 'time'] + SETTERS,
}
DEPTH = {'quick': dict(blocks=5, names=5, life=4, all=3), 'thorough': dict(blocks=7, names=6, life=6, all=4)}


def CASES(tier):
    cs = [dict(k='param', i=i) for i in range(3)]
    for al, ops in ALPHABETS.items():
        d = DEPTH[tier][al]
        pre = [] if al == 'life' else ['init']
        if al == 'all':
            cs.append(dict(k='seq', al=al, pre=[], depth=2))
        for a in ops:
            for b in ops:
                cs.append(dict(k='seq', al=al, pre=pre + [a, b], depth=d + len(pre)))
    return cs


CHUNK = 4


# --- model: plain dict, persistent (never modified in place)
def fresh():
    return dict(st=0, xf=None, gs=None, stack=(), names={}, ropt={}, cam=None, time=None)


class Reject(Exception):
    pass


def T4(m):
    return tuple(tuple(r) for r in m)


def m_step(s, op, n):
    s = dict(s)
    if op == 'init':
        if s['st']:
            raise Reject
        s = fresh()
        s.update(st=1, xf=T4(I4), gs=0, cam=T4(I4), time=(0., 1.))
        return s
    if op == 'clean':
        if s['st']:
            s = fresh()
        return s
    if not s['st']:
        raise Reject
    if op in XF:
        s['xf'] = T4(mm(s['xf'], XF[op][1]))
    elif op == 'set':
        s['xf'] = T4(CT)
    elif op == 'id':
        s['xf'] = T4(I4)
    elif op == 'gs':
        s['gs'] = n + 1
    elif op in ('ab', 'tb'):
        s['stack'] = s['stack'] + ((op, s['xf'], s['gs']),)
    elif op == 'te':
        if s['stack'] and s['stack'][-1][0] == 'tb':
            s['xf'] = s['stack'][-1][1]
            s['stack'] = s['stack'][:-1]
    elif op == 'ae':
        k = max([i for i, e in enumerate(s['stack']) if e[0] == 'ab'], default=None)
        if k is not None:
            s['xf'], s['gs'] = s['stack'][k][1:]
            s['stack'] = s['stack'][:k]
    elif op in ('na', 'nb'):
        s['names'] = dict(s['names'], **{op[1]: s['xf']})
    elif op in ('sa', 'sb', 'sw', 'sx', 'sc_cam'):
        nm = {'sa': 'a', 'sb': 'b', 'sw': 'world', 'sx': 'missing', 'sc_cam': 'camera'}[op]
        if nm not in s['names']:
            raise Reject
        s['xf'] = s['names'][nm]
    elif op == 'cam':
        s['cam'] = T4(minv(s['xf']))
        s['names'] = dict(s['names'], camera=s['cam'])
        s['ropt'] = dict(s['ropt'], camera=('perspective%d' % n, n))
    elif op == 'wb':
        s['st'] = 2
        s['xf'] = T4(I4)
        s['names'] = dict(s['names'], world=s['xf'])
    elif op == 'time':
        s['time'] = (.5, n + 1.)
    else:
        s['ropt'] = dict(s['ropt'], **{FIELD.get(op, op): ('nm%d' % n, n)})
    return s


def r_step(op, n):
    if op == 'init':
        api.system_init(Option())
    elif op == 'clean':
        api.system_clean()
    elif op in XF:
        XF[op][0]()
    elif op == 'set':
        api.trans_set(Transform(np.array(CT)))
    elif op == 'id':
        api.trans_identity()
    elif op == 'gs':
        if inter.API_STATUS == 0:
            raise RuntimeError('no state')
        inter.GRAPHICS_STATE.mark = n + 1
    elif op == 'ab':
        api.attribute_begin()
    elif op == 'ae':
        api.attribute_end()
    elif op == 'tb':
        api.transform_begin()
    elif op == 'te':
        api.transform_end()
    elif op in ('na', 'nb'):
        api.add_coordinate_system(op[1])
    elif op in ('sa', 'sb', 'sw', 'sx', 'sc_cam'):
        api.set_coordinate_system({'sa': 'a', 'sb': 'b', 'sw': 'world', 'sx': 'missing', 'sc_cam': 'camera'}[op])
    elif op == 'cam':
        api.set_camera('Perspective%d' % n, n)
    elif op == 'wb':
        api.world_begin()
    elif op == 'time':
        api.set_transformation_time(.5, n + 1.)
    else:
        getattr(api, 'set_' + op)('Nm%d' % n, n)


def same(xs, m):
    """every active transformation equals matrix m, and carries its inverse"""
    if xs is None or len(xs) != inter.MAX_TRANSFORM:
        return False
    for x in xs:
        if not isclose(x.m.ravel(), [v for r in m for v in r], 1e-9):
            return False
    return True


def compare(s, hist, ctx):
    tag = 'after %s' % ' '.join(hist)
    ctx.check(inter.API_STATUS == s['st'], 'status', tag, got=inter.API_STATUS, want=s['st'])
    if not s['st']:
        return
    ctx.check(same(inter.TRANSFORM_SET, s['xf']), 'transformation', '%s: current transformation %r, want %r' % (tag, [x.m.tolist() for x in inter.TRANSFORM_SET], s['xf']))
    g = getattr(inter.GRAPHICS_STATE, 'mark', 0)
    ctx.check(g == s['gs'], 'graphics-state', '%s: %r want %r' % (tag, g, s['gs']))
    ro = inter.RENDER_OPTION
    ctx.check(same(ro.cam2wld, s['cam']), 'camera', tag)
    ctx.check((ro.trans_start_time, ro.trans_end_time) == s['time'], 'time', tag)
    for f, (nm, p) in s['ropt'].items():
        ctx.check((getattr(ro, f + '_name'), getattr(ro, f + '_param')) == (nm, p), 'option', '%s: %s' % (tag, f))
    for x in inter.TRANSFORM_SET:
        ctx.check(np.allclose(x.m.dot(x.m_inv), np.eye(4)), 'inverse-pair', tag)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def play(hist, ctx, full):
    """replay hist; compare after the last call (all prefixes are histories of their own)"""
    with quiet():
        if inter.API_STATUS != 0:
            api.system_clean()
    s = fresh()
    for i, op in enumerate(hist):
        last = full or i == len(hist) - 1
        try:
            t = m_step(s, op, i)
            rej = False
        except Reject:
            t, rej = s, True
        try:
            with quiet():
                r_step(op, i)
            rr = False
        except RuntimeError:
            rr = True
        if last:
            ctx.check(rej == rr, 'rejected', 'call %d of %s was %s' % (i, ' '.join(hist[:i + 1]), 'rejected' if rr else 'accepted'))
        if rej != rr:
            return None
        s = t
        if last:
            compare(s, hist[:i + 1], ctx)
    return s


def final(s, hist, ctx):
    """recall every name and unwind all blocks at the end of a deepest history"""
    for nm in sorted(s['names']):
        api.set_coordinate_system(nm)
        ctx.check(same(inter.TRANSFORM_SET, s['names'][nm]), 'recall', '%s then recalling %r' % (' '.join(hist), nm))
    n = 0
    while s['stack']:
        op = 'te' if s['stack'][-1][0] == 'tb' else 'ae'
        s = m_step(s, op, 0)
        with quiet():
            r_step(op, 0)
        n += 1
        compare(s, list(hist) + ['(unwind %d)' % n], ctx)


def RUN(case, ctx):
    ctx.outcome(case['k'])
    if case['k'] == 'param':
        return params(case['i'], ctx)
    ops, depth = ALPHABETS[case['al']], case['depth']

    def go(hist):
        s = play(hist, ctx, False)
        if s is None:
            return
        ctx.state(repr(sorted(s.items(), key=lambda kv: kv[0])))
        if len(hist) < depth:
            for op in ops:
                go(hist + [op])
        else:
            if s['st']:
                final(s, hist, ctx)
            ctx.trace()
    # the two-letter prefixes themselves
    if len(case['pre']) >= 2:
        if play(case['pre'], ctx, True) is None:
            return
    go(list(case['pre']))
    with quiet():
        api.system_clean()
    ctx.sample(case)


def params(first, ctx):
    ops = [('push', 'float', 1.), ('push', 'float', [2., 3.]), ('push', 'string', 'x'), ('enum', 'float'), ('enum', 'string'), ('push', 'bool', False), ('enum', 'bool')]
    for h in itertools.product(ops, repeat=4):
        if ops.index(h[0]) % 3 != first:
            continue
        p, q = Param(), Param()
        m = {}
        for o in h:
            if o[0] == 'push':
                p.push_back(o[1], o[2])
                m[o[1]] = m.get(o[1], ()) + (o[2],)
            else:
                got = p.enum(o[1])
                want = m[o[1]][0] if m.get(o[1]) else None
                m[o[1]] = m.get(o[1], ())[1:]
                ctx.check(got == want and type(got) is type(want), 'param-order', repr(h))
            for t in Param.PARAM_TYPE:
                ctx.check(list(p.fetch(t)) == list(m.get(t, ())) and bool(p.has_more(t)) == bool(m.get(t)), 'param-content', repr(h))
                ctx.check(not q.has_more(t), 'param-shared', repr(h))
        ctx.state('param', sorted(m.items()))
        for f in (lambda: p.push_back('matrix', 1), lambda: p.enum('matrix'), lambda: p.fetch('matrix'), lambda: p.has_more('matrix')):
            try:
                f()
                ctx.fail('param-kind', 'unknown parameter kind accepted')
            except KeyError:
                pass
        ctx.trace()
