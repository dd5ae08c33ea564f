"""S04: loop subdivision and triangle meshes keep the mesh they were given."""
from mc.pt import *
from mc.core import isclose
from mc import shapes as sh
from pytracer.shape import create_loop_subdiv, create_triangle_mesh, LoopSubdiv, TriangleMesh, Triangle
from pytracer.transform import Transform

RULE = ('every oriented surface on up to five vertices (all sets of triangles whose edges bound at most two consistently ordered faces and whose vertex neighbourhoods are a path or a ring, one per '
        'relabelling class) plus a catalogue of fans, grids, tori and solids, x listings x placements x levels, refined by the real code and compared vertex by vertex and face by face with an '
        'adjacency-set model; every small mesh description x placement for meshes, and a barycentric grid for shading normals; states are (mesh, listing, level, vertex) and (mesh, query)')
ASSUME = ['surfaces are manifold and consistently ordered, as documented', 'which way subdivision normals face is free, but the same all over the surface']
CHUNK = 4

POS = [(0., 0., 0.), (2., .1, .3), (.3, 1.9, -.2), (-1.1, .4, 1.7), (.9, -1.3, .8)]


# ------------------------------------------------------------ the model
def loop_step(V_, F):
    opp, nb, bnd = {}, {}, {}
    for f in F:
        for k in range(3):
            e = frozenset((f[k], f[(k + 1) % 3]))
            opp.setdefault(e, []).append(f[(k + 2) % 3])
    for e, o in opp.items():
        a, b = tuple(e)
        nb.setdefault(a, set()).add(b)
        nb.setdefault(b, set()).add(a)
        if len(o) == 1:
            bnd.setdefault(a, []).append(b)
            bnd.setdefault(b, []).append(a)
    out = []
    for i, p in enumerate(V_):
        if i in bnd:
            assert len(bnd[i]) == 2
            out.append([.75 * p[k] + .125 * (V_[bnd[i][0]][k] + V_[bnd[i][1]][k]) for k in range(3)])
        else:
            n = len(nb[i])
            be = 3. / 16 if n == 3 else 3. / (8 * n)
            out.append([(1. - n * be) * p[k] + be * sum(V_[j][k] for j in nb[i]) for k in range(3)])
    idx = {}
    for e, o in opp.items():
        a, b = tuple(e)
        idx[e] = len(out)
        if len(o) == 1:
            out.append([.5 * (V_[a][k] + V_[b][k]) for k in range(3)])
        else:
            out.append([.375 * (V_[a][k] + V_[b][k]) + .125 * (V_[o[0]][k] + V_[o[1]][k]) for k in range(3)])
    G = []
    for f in F:
        a, b, c = f
        ab, bc, ca = (idx[frozenset(x)] for x in ((a, b), (b, c), (c, a)))
        G += [(a, ab, ca), (ab, b, bc), (ca, bc, c), (ab, bc, ca)]
    return out, G


def loop_limit(V_, F):
    """limit positions and normals (up to sign)"""
    nxt = {}
    for a, b, c in F:
        for x, y, z in ((a, b, c), (b, c, a), (c, a, b)):
            nxt.setdefault(x, {})[y] = z          # around x, z follows y counterclockwise
    P, N, rings = [], [], []
    for i, p in enumerate(V_):
        m = nxt[i]
        starts = [y for y in m if y not in m.values()]
        y = starts[0] if starts else min(m)
        ring = [y]
        while y in m and m[y] != ring[0]:
            y = m[y]
            ring.append(y)
        n = len(ring)
        R = [V_[j] for j in ring]
        rings.append((bool(starts), ring))
        if starts:
            P.append([.6 * p[k] + .2 * (R[0][k] + R[-1][k]) for k in range(3)])
        else:
            be = 3. / 16 if n == 3 else 3. / (8 * n)
            g = 1. / (n + 3. / (8. * be))
            P.append([(1. - n * g) * p[k] + g * sum(q[k] for q in R) for k in range(3)])
    # tangents from the rings of the limit positions
    for p, (edge, ring) in zip(P, rings):
        R = [P[j] for j in ring]
        n = len(R)
        if edge:
            S = sub(R[-1], R[0])
            if n == 2:
                T = [R[0][k] + R[1][k] - 2 * p[k] for k in range(3)]
            elif n == 3:
                T = sub(R[1], p)
            elif n == 4:
                T = [2 * R[1][k] + 2 * R[2][k] - R[0][k] - R[3][k] - 2 * p[k] for k in range(3)]
            else:
                th = math.pi / (n - 1)
                w = [math.sin(th)] + [(2 * math.cos(th) - 2) * math.sin(j * th) for j in range(1, n - 1)] + [math.sin(th)]
                T = [-sum(w[j] * R[j][k] for j in range(n)) for k in range(3)]
        else:
            S = [sum(math.cos(2 * math.pi * j / n) * R[j][k] for j in range(n)) for k in range(3)]
            T = [-sum(math.sin(2 * math.pi * j / n) * R[j][k] for j in range(n)) for k in range(3)]
        N.append(cross(S, T))
    return P, N


# ------------------------------------------------------------ the meshes
def manifold(F):
    seen = {}
    for f in F:
        for k in range(3):
            e = (f[k], f[(k + 1) % 3])
            if e in seen:
                return False
            seen[e] = f
    for v in set(x for f in F for x in f):
        m = {}
        for f in F:
            if v in f:
                k = f.index(v)
                m[f[(k + 1) % 3]] = f[(k + 2) % 3]
        starts = [y for y in m if y not in m.values()]
        if len(starts) > 1:
            return False
        y = starts[0] if starts else next(iter(m))
        s, n = y, 0
        while y in m:
            y = m[y]
            n += 1
            if y == s:
                break
        if n != len(m):
            return False
    return True


def canon(F, nv):
    best = None
    for p in itertools.permutations(range(nv)):
        g = []
        for f in F:
            h = [p[x] for x in f]
            k = h.index(min(h))
            g.append(tuple(h[k:] + h[:k]))
        g = tuple(sorted(g))
        if best is None or g < best:
            best = g
    return best


_cache = {}


def surfaces(nv, kmax):
    """all oriented manifold complexes on exactly nv vertices with up to kmax faces, one per relabelling class"""
    if (nv, kmax) in _cache:
        return _cache[nv, kmax]
    tris = []
    for a, b, c in itertools.combinations(range(nv), 3):
        tris += [(a, b, c), (a, c, b)]
    found, classes = [], set()
    level = [()]
    for k in range(kmax):
        nextl = []
        for F in level:
            first = tris.index(F[-1]) + 1 if F else 0
            used = set(e for f in F for e in ((f[0], f[1]), (f[1], f[2]), (f[2], f[0])))
            for t in tris[first:]:
                if (t[0], t[1]) in used or (t[1], t[2]) in used or (t[2], t[0]) in used:
                    continue
                if F and frozenset(t) == frozenset(F[-1]):
                    continue
                G = F + (t,)
                nextl.append(G)
                if len(set(x for f in G for x in f)) == nv and manifold(G):
                    c = canon(G, nv)
                    if c not in classes:
                        classes.add(c)
                        found.append([list(f) for f in c])
        level = nextl
    _cache[nv, kmax] = found
    return found


def fan(n, closed, z=.3):
    pts = [(0., 0., z)]
    m = n if closed else n + 1
    for i in range(m):
        a = 2 * math.pi * i / (n if closed else n * 1.6)
        r = 1. + .1 * (i % 3)
        pts.append((r * math.cos(a), r * math.sin(a), .05 * (i % 2)))
    return pts, [[0, 1 + i, 1 + (i + 1) % m] for i in range(n)]


def gridmesh(nx, ny, z):
    pts = [(float(x), float(y) + .1 * x, z(x, y)) for y in range(ny + 1) for x in range(nx + 1)]
    F = []
    for y in range(ny):
        for x in range(nx):
            a = y * (nx + 1) + x
            F += [[a, a + 1, a + nx + 2], [a, a + nx + 2, a + nx + 1]]
    return pts, F


def torus(n, m):
    pts = []
    for i in range(n):
        for j in range(m):
            a, b = 2 * math.pi * i / n, 2 * math.pi * j / m
            pts.append(((2 + math.cos(b)) * math.cos(a), (2 + math.cos(b)) * math.sin(a), math.sin(b)))
    F = []
    for i in range(n):
        for j in range(m):
            a, b, c, d = i * m + j, (i + 1) % n * m + j, (i + 1) % n * m + (j + 1) % m, i * m + (j + 1) % m
            F += [[a, b, c], [a, c, d]]
    return pts, F


def octa():
    return ([(1., 0., 0.), (0., 1.2, 0.), (-1., .1, 0.), (0., -1., .2), (0., 0., 1.), (.1, 0., -1.)],
            [[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4], [1, 0, 5], [2, 1, 5], [3, 2, 5], [0, 3, 5]])


def annulus(n):
    pts, F = [], []
    for i in range(n):
        a = 2 * math.pi * i / n
        pts += [(math.cos(a), math.sin(a), 0.), (2 * math.cos(a), 2 * math.sin(a), .2 * (i % 2))]
    for i in range(n):
        a, b, c, d = 2 * i, 2 * i + 1, 2 * ((i + 1) % n), 2 * ((i + 1) % n) + 1
        F += [[a, b, d], [a, d, c]]
    return pts, F


def union(A, B):
    k = len(A[0])
    return list(A[0]) + [tuple(x + 7. for x in p) for p in B[0]], [list(f) for f in A[1]] + [[x + k for x in f] for f in B[1]]


BIG = {
    'fan4': lambda: fan(4, False), 'fan5': lambda: fan(5, False), 'fan6': lambda: fan(6, False), 'wheel4': lambda: fan(4, True), 'wheel5': lambda: fan(5, True),
    'wheel6': lambda: fan(6, True), 'wheel7': lambda: fan(7, True), 'wheel9': lambda: fan(9, True), 'flatwheel5': lambda: ([(x, y, 0.) for x, y, z in fan(5, True)[0]], fan(5, True)[1]),
    'grid22': lambda: gridmesh(2, 2, lambda x, y: 0.), 'grid33': lambda: gridmesh(3, 3, lambda x, y: .2 * x * y), 'torus34': lambda: torus(3, 4), 'octa': octa,
    'wheel13': lambda: fan(13, True), 'fan15': lambda: fan(15, False), 'wheel20': lambda: fan(20, True),
    'annulus4': lambda: annulus(4), 'two': lambda: union(fan(3, True), octa()),
}


def mesh(c):
    if 'big' in c:
        p, F = BIG[c['big']]()
        return list(p), [list(f) for f in F]
    return POS[:c['nv']], [list(f) for f in c['F']]


def relabel(pts, F, how):
    n = len(pts)
    if how & 1:
        perm = [(3 * i + 1) % n if n % 3 else (n - 1 - i) for i in range(n)]
        new = [None] * n
        for i, p in enumerate(pts):
            new[perm[i]] = p
        pts, F = new, [[perm[x] for x in f] for f in F]
    if how & 2:
        F = F[::-1]
    if how & 4:
        F = [f[i % 3:] + f[:i % 3] for i, f in enumerate(F)]
    if how & 8:
        F = F[1:] + F[:1]
    return pts, F


PLACES = ['id', 'mirskew']


def CASES(tier):
    cs = []
    hows = (0, 7, 13) if tier == 'quick' else tuple(range(16))
    for nv, km in ((3, 2), (4, 4), (5, 6)) if tier == 'quick' else ((3, 2), (4, 4), (5, 8)):
        for i, F in enumerate(surfaces(nv, km)):
            for j, how in enumerate(hows):
                for lv in (0, 1, 2):
                    cs.append(dict(kind='loop', nv=nv, F=F, how=how, lv=lv, p=PLACES[(i + j + lv) % 2]))
    for i, b in enumerate(BIG):
        for j, how in enumerate(hows):
            for lv in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
                if tier == 'quick' and b in ('wheel13', 'fan15', 'wheel20') and lv + j != 1:
                    continue
                if lv == 3 and how:
                    continue
                cs.append(dict(kind='loop', big=b, how=how, lv=lv, p=PLACES[(i + j + lv) % 2]))
    for nv in (3, 4):
        for F in surfaces(nv, 4):
            for p in PLACES:
                cs.append(dict(kind='mesh', nv=nv, F=F, p=p))
    cs.append(dict(kind='mesh', big='octa', p='id'))
    cs.append(dict(kind='mesh', big='octa', p='spin', more=2))
    cs.append(dict(kind='errors'))
    for p in ('id', 'spin', 'mirror', 'skew', 'mirskew', 'grow'):
        for ro in (0, 1):
            for t in ('std', 'uv', 'uvflat', 'uvflip', 'side'):
                for ns in (1, 2, 3):
                    cs.append(dict(kind='shade', p=p, ro=ro, t=t, ns=ns))
    return cs


def RUN(case, ctx):
    globals()['run_' + case['kind']](case, ctx)
    ctx.trace()
    ctx.outcome('%s/%s' % (case['kind'], case.get('lv', case.get('p'))))
    ctx.sample(case)


def flat(pts):
    return [x for p in pts for x in p]


def run_loop(case, ctx):
    pts, F = mesh(case)
    pts, F = relabel(pts, F, case['how'])
    T, Ti, m, mi = sh.place(case['p'])
    P_in, vi_in = flat(pts), [x for f in F for x in f]
    tag = repr(case)
    s = create_loop_subdiv(T, Ti, False, {'nlevels': case['lv'], 'indices': list(vi_in), 'P': list(P_in)})
    ctx.check(isinstance(s, LoopSubdiv) and not s.can_intersect(), 'kind', tag)
    for b, f in ((s.object_bound(), lambda q: q), (s.world_bound(), lambda q: m_pt(m, q))):
        want = [f(q) for q in pts]
        ctx.close(L(b.pMin), [min(q[k] for q in want) for k in range(3)], 'bound', tag, tol=1e-9)
        ctx.close(L(b.pMax), [max(q[k] for q in want) for k in range(3)], 'bound', tag, tol=1e-9)
    V_, G = [list(p) for p in pts], [tuple(f) for f in F]
    for _ in range(case['lv']):
        V_, G = loop_step(V_, G)
    P, N = loop_limit(V_, G)
    for again in range(2):
        out = s.refine()
        ctx.require(len(out) == 1 and isinstance(out[0], TriangleMesh), 'refine-kind', tag)
        compare(ctx, tag + ' refine #%d' % again, out[0], m, mi, P, N, G, pts)


def compare(ctx, tag, t, m, mi, P, N, G, pts):
    ctx.check(t.ntris == len(G) and t.nverts == len(P) and len(t.vertexIndex) == 3 * len(G), 'counts', '%s: %d faces %d vertices, want %d and %d' % (tag, t.ntris, t.nverts, len(G), len(P)))
    got = [m_pt(mi, L(p)) for p in t.p]
    where, free = [], set(range(len(got)))
    for q in P:
        best = min(free, key=lambda j: norm(sub(got[j], q))) if free else None
        if not ctx.check(best is not None and norm(sub(got[best], q)) < 1e-6, 'vertex', '%s: no vertex at %r (closest %r)' % (tag, q, best is not None and got[best])):
            return
        free.discard(best)
        where.append(best)
    rot = lambda f: tuple(f[f.index(min(f)):] + f[:f.index(min(f))])
    want = sorted(rot(tuple(where[x] for x in f)) for f in G)
    have = sorted(rot(tuple(t.vertexIndex[3 * i:3 * i + 3])) for i in range(t.ntris))
    ctx.check(want == have, 'faces', '%s: faces differ: %r' % (tag, sorted(set(want) ^ set(have))[:6]))
    signs = set()
    for i, w in enumerate(where):
        n = L(t.n[w])
        k = norm(N[i])
        if k < 1e-6:
            ctx.skip()
            continue
        if not ctx.check(norm(n) > 0. and norm(cross(unit(n), unit(N[i]))) < 1e-6, 'normal', '%s: at %r got %r, want along %r' % (tag, P[i], n, N[i])):
            return
        signs.add(dot(n, N[i]) > 0)
        ctx.state(tag, i)
    ctx.check(len(signs) <= 1, 'normal-side', '%s: normals face both sides' % tag)


def run_mesh(case, ctx):
    pts, F = mesh(case)
    # vertices no face uses are part of the mesh all the same
    pts = list(pts) + [(9., -8., 7.)] * case.get('more', 0)
    T, Ti, m, mi = sh.place(case['p'])
    vi = [x for f in F for x in f]
    n = len(pts)
    uv = [.1 * i + .03 * i * i for i in range(2 * n)]
    N = [Nm(unit((1. + i, 2. - i, .5))) for i in range(n)]
    S = [V(unit((.3, i, 1.))) for i in range(n)]
    tex = lambda dg: 1.
    for as_points in (0, 1):
        for names in itertools.product((0, 1), repeat=4):
            par = {'indices': list(vi), 'P': [Pt(p) for p in pts] if as_points else flat(pts)}
            if names[0]:
                par['uv' if as_points else 'st'] = list(uv)
            if names[1]:
                par['N'] = list(N)
            if names[2]:
                par['S'] = list(S)
            if names[3]:
                par['alphatex'] = 'mask'
            tag = '%r points=%d %r' % (case, as_points, names)
            t = create_triangle_mesh(T, Ti, bool(names[0]), par, {'mask': tex})
            ctx.require(isinstance(t, TriangleMesh) and not t.can_intersect(), 'mesh-kind', tag)
            ctx.check(par['indices'] == vi and len(par['P']) == (n if as_points else 3 * n), 'mesh-argument', tag)
            ctx.check((t.alphaTexture is tex) == bool(names[3]) and (t.n is not None) == bool(names[1]) and (t.s is not None) == bool(names[2]), 'mesh-attributes', tag)
            want = [m_pt(m, p) for p in pts]
            for b, w in ((t.object_bound(), pts), (t.world_bound(), want)):
                ctx.close(L(b.pMin), [min(q[k] for q in w) for k in range(3)], 'mesh-bound', tag, tol=1e-9)
                ctx.close(L(b.pMax), [max(q[k] for q in w) for k in range(3)], 'mesh-bound', tag, tol=1e-9)
            out = t.refine()
            ctx.check(len(out) == len(F), 'mesh-count', tag)
            for i, (tr, f) in enumerate(zip(out, F)):
                ctx.check(isinstance(tr, Triangle) and tr.can_intersect() and tr.ro == bool(names[0]) and tr.mesh is t, 'mesh-triangle', tag)
                for k in range(3):
                    ctx.close(L(tr[k]), want[f[k]], 'mesh-vertex', '%s triangle %d vertex %d' % (tag, i, k), tol=1e-9)
                uvs = tr.get_uvs()
                wuv = [[uv[2 * j], uv[2 * j + 1]] for j in f] if names[0] else [[0., 0.], [1., 0.], [1., 1.]]
                for k in range(3):
                    ctx.close(uvs[k], wuv[k], 'mesh-uv', tag, tol=1e-12)
                w3 = [want[j] for j in f]
                ctx.close(tr.area(), .5 * norm(cross(sub(w3[1], w3[0]), sub(w3[2], w3[0]))), 'mesh-area', tag, tol=1e-9)
                b = tr.world_bound()
                ctx.close(L(b.pMin) + L(b.pMax), [min(q[k] for q in w3) for k in range(3)] + [max(q[k] for q in w3) for k in range(3)], 'mesh-tribound', tag, tol=1e-9)
                ctx.state(tag, i)


def run_errors(case, ctx):
    T, Ti, m, mi = sh.place('id')
    P = flat(POS[:4])
    base = {'indices': [0, 1, 2, 0, 2, 3], 'P': P}

    def outcome(**kw):
        par = dict(base)
        par.update(kw)
        par = {k: v for k, v in par.items() if v is not None}
        try:
            t = create_triangle_mesh(T, Ti, False, par, {'m': 1})
        except RuntimeError:
            return 'error'
        return t
    ok = lambda t: isinstance(t, TriangleMesh)
    ctx.check(outcome(P=None) is None, 'missing-points', 'a mesh without vertices is not made')
    ctx.check(outcome(indices=None) is None, 'missing-indices', 'a mesh without indices is not made')
    ctx.check(outcome(indices=[0, 1, 2, 0]) == 'error', 'index-count')
    ctx.check(outcome(indices=[0, 1, 4]) == 'error', 'index-range')
    ctx.check(ok(outcome(indices=[0, 1, 3])), 'index-last')
    ctx.check(outcome(P=P[:-1]) == 'error', 'coordinate-count')
    ctx.check(outcome(uv=[0.] * 7) == 'error', 'uv-count')
    ctx.check(ok(outcome(uv=[0.] * 8)), 'uv-exact')
    ctx.check(outcome(N=[Nm((0, 0, 1))] * 3) == 'error', 'normal-count')
    ctx.check(outcome(S=[V((0, 0, 1))] * 5) == 'error', 'tangent-count')
    ctx.check(outcome(alphatex='zz') == 'error', 'unknown-mask')
    # degenerate coordinates are discarded on request, and only then
    N = [Nm((0, 0, 1))] * 4
    good = [0., 0., 1., 0., 1., 1., 0., 1.]
    for i, j in itertools.combinations(range(4), 2):
        uv = list(good)
        uv[2 * j:2 * j + 2] = uv[2 * i:2 * i + 2]
        shared = any(i in f and j in f for f in ((0, 1, 2), (0, 2, 3)))
        for disc in (False, True):
            t = outcome(uv=uv, N=N, discard=disc)
            ctx.check(ok(t) and (t.uvs is None) == (disc and shared), 'discard', 'vertices %d and %d share coordinates, discard=%r: uvs %r' % (i, j, disc, getattr(t, 'uvs', t)))
            ctx.state('discard', i, j, disc)
    ctx.check(create_loop_subdiv(T, Ti, False, {'P': P}) is None and create_loop_subdiv(T, Ti, False, {'indices': [0, 1, 2]}) is None, 'subdiv-missing')
    s = create_loop_subdiv(T, Ti, False, dict(base))
    ctx.check(len(s.refine()[0].vertexIndex) == 3 * 2 * 64, 'subdiv-default', 'three levels by default')
    s = create_loop_subdiv(T, Ti, False, dict(base, nlevels=1))
    for f in (lambda: s.intersect(geo.Ray()), lambda: s.intersect_p(geo.Ray())):
        try:
            f()
            ctx.check(False, 'subdiv-intersect', 'a subdivision surface answered a ray before refinement')
        except NotImplementedError:
            ctx.step()


def run_shade(case, ctx):
    ref = sh.reference('tri:' + case['t'])
    T, Ti, m, mi = sh.place(case['p'])
    ro = bool(case['ro'])
    g = ref.normal(None)
    a, b = unit(sub(ref.v[1], ref.v[0])), None
    b = cross(g, a)
    tilt = lambda x, y: unit(add(g, add(mul(a, x), mul(b, y))))
    n3 = [tilt(.3, .1), tilt(-.2, .25), tilt(.05, -.4)]
    s3 = [unit(add(a, mul(b, k))) for k in (.2, -.3, .5)]
    useN, useS = case['ns'] & 1, case['ns'] & 2
    # a scaled normal list: only directions matter at the corners
    tri = ref.make(T, Ti, ro, N=[Nm(x) for x in n3] if useN else None, S=[V(x) for x in s3] if useS else None)
    us = ref.uvsign()
    for w in [(1 / 3., 1 / 3., 1 / 3.), (.8, .1, .1), (.1, .8, .1), (.1, .1, .8), (.5, .3, .2), (.2, .5, .3), (.15, .25, .6), (.02, .49, .49)]:
        q = [sum(w[i] * ref.v[i][k] for i in range(3)) for k in range(3)]
        p = m_pt(m, q)
        d = m_vec(m, mul(add(g, mul(a, .2)), -1.))
        o = sub(p, d)
        tag = '%r at %r' % (case, w)
        hit, t, eps, dg = tri.intersect(Ray(Pt(o), V(d)))
        if not ctx.check(hit, 'shade-hit', tag):
            continue
        before = [L(x) for x in (dg.p, dg.nn, dg.dpdu, dg.dpdv)] + [dg.u, dg.v]
        for c in ('dudx', 'dvdx', 'dudy', 'dvdy'):
            setattr(dg, c, .25 + len(c) + ord(c[1]))
        dg.dpdx, dg.dpdy = V((1, 2, 3)), V((4, 5, 6))
        s = tri.get_shading_geometry(T, dg)
        ctx.check([L(x) for x in (dg.p, dg.nn, dg.dpdu, dg.dpdv)] + [dg.u, dg.v] == before, 'shade-pure', tag)
        ctx.close(L(s.p) + [s.u, s.v], L(dg.p) + [dg.u, dg.v], 'shade-point', tag)
        ctx.check(s.shape is tri, 'shade-shape', tag)
        ctx.close([s.dudx, s.dvdx, s.dudy, s.dvdy] + L(s.dpdx) + L(s.dpdy), [dg.dudx, dg.dvdx, dg.dudy, dg.dvdy, 1, 2, 3, 4, 5, 6], 'shade-screen', tag)
        bw = w if us else (1 / 3., 1 / 3., 1 / 3.)
        if useN:
            ns = unit(m_nrm(m, unit([sum(bw[i] * n3[i][k] for i in range(3)) for k in range(3)])))
        else:
            ns = L(dg.nn)
        nn = L(s.nn)
        ctx.check(abs(norm(nn) - 1.) < 1e-9, 'shade-unit', tag)
        if not ctx.check(norm(cross(nn, ns)) < 1e-6, 'shade-normal', '%s: got %r, want along %r' % (tag, nn, ns)):
            continue
        if us > 0:
            ctx.check(dot(nn, L(dg.nn)) > 0., 'shade-side', '%s: shading normal %r opposes the hit normal %r' % (tag, nn, L(dg.nn)))
        # tangents: perpendicular to the normal, the first along the prescribed direction
        du, dv = L(s.dpdu), L(s.dpdv)
        ctx.check(norm(du) > 1e-9 and norm(dv) > 1e-9, 'shade-tangent', tag)
        du, dv = unit(du), unit(dv)
        ctx.check(abs(dot(du, nn)) < 1e-6 and abs(dot(dv, nn)) < 1e-6 and abs(dot(du, dv)) < 1e-6, 'shade-frame', '%s: %r %r %r' % (tag, du, dv, nn))
        ss = m_vec(m, [sum(bw[i] * s3[i][k] for i in range(3)) for k in range(3)]) if useS else L(dg.dpdu)
        proj = sub(ss, mul(nn, dot(ss, nn)))
        if norm(proj) > 1e-3 * norm(ss):
            ctx.check(norm(cross(unit(proj), du)) < 1e-6, 'shade-tangent', '%s: tangent %r, want along %r' % (tag, du, unit(proj)))
        if useN and us:
            (u0, v0), (u1, v1), (u2, v2) = ref.uvs()
            # gradient of the linear interpolation of the corner normals
            det = (u1 - u0) * (v2 - v0) - (u2 - u0) * (v1 - v0)
            e1, e2 = sub(n3[1], n3[0]), sub(n3[2], n3[0])
            dndu = mul(sub(mul(e1, v2 - v0), mul(e2, v1 - v0)), 1. / det)
            dndv = mul(sub(mul(e2, u1 - u0), mul(e1, u2 - u0)), 1. / det)
            ctx.close(L(s.dndu), m_nrm(m, dndu), 'shade-dndu', tag)
            ctx.close(L(s.dndv), m_nrm(m, dndv), 'shade-dndv', tag)
        ctx.state(tag)
    plain = ref.make(T, Ti, ro)
    d = m_vec(m, mul(g, -1.))
    p = m_pt(m, [sum(ref.v[i][k] for i in range(3)) / 3. for k in range(3)])
    hit, t, eps, dg = plain.intersect(Ray(Pt(sub(p, d)), V(d)))
    s = plain.get_shading_geometry(T, dg)
    ctx.close(L(s.nn) + L(s.dpdu) + L(s.dpdv), L(dg.nn) + L(dg.dpdu) + L(dg.dpdv), 'shade-plain', repr(case))
