"""Writes DESIGN.md: tools/design_head.md, one section per property (registry + the check's own RULE/ASSUME + notes below), planted bugs, findings."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.registry import P

# per property: oracle / how the space is walked / bounds quick -> thorough / what the tests cannot reach
N = {
'G01': ('an exact set model: boxes as pairs of rationals (fractions), the slab test as interval intersection over fractions', 'explicit-state breadth-first search over union/expand histories (states = boxes, with aliasing probes after each step) plus the full product boxes x rays x intervals', 'histories to depth 3 (4); dyadic lattice values'),
'G02': ('plain-list 4x4 matrices applied step by step', 'every word over 16 elementary transforms; each word is built by the real operator * and by the model', 'words to length 3 (4)'),
'G03': ('axis-angle rotation, linear translation and scale', 'every ordered keyframe pair is a timed system whose grid times are queried forwards then backwards (history independence)', 'fewer rotations and one interval in quick'),
'G04': ('definitions of orthonormality and of spherical coordinates; a dict model of rays', 'complete integer lattice of directions; explicit-state search over copy/derive/scale/write histories on a pool of rays', 'histories to depth 3 (4)'),
'S01': ('all roots of the quadric or plane equation, clipped analytically, in the object frame', 'product of shapes x placements x flags x rays x parameter intervals', 'every second ray and part of the placements in quick'),
'S02': ('analytic parametrisation and its finite differences', 'every parameter-grid point is hit from both sides', 'parameter grid 4x4 (9x9) per shape, half of the orientation flags in quick'),
'S03': ('area-uniform coordinates of each surface: Jacobian and census of cells must be one', 'complete grid over the unit square for each shape', '12x12 (28x28) cells'),
'S04': ('an adjacency-set implementation of loop subdivision (own data structure, own limit masks)', 'all surfaces up to five vertices up to relabelling, catalogue of larger ones, x listings, x levels', 'levels 0..2 (0..3), 3 (16) listings'),
'A01': ('brute-force scan over the objects', 'scenes x listing orders x 18 accelerator configurations x rays x intervals; plus all placements of up to five balls for the builders', 'thinned rays in quick, all in thorough'),
'A02': ('a fresh aggregate for each query', 'explicit-state search over query histories on one shared aggregate, state includes the pattern of refined cells', 'histories of length 2 (3; 3 also in quick for the lazily refined grid)'),
'A03': ('linearizability against the sequential answer: each query must answer as if the objects had been refined before', 'stateless exploration: real threads run one at a time by mc/sched.py, which switches (byte-code tracing) before each access to shared attributes/elements and each lock operation; iterative preemption bounding; each refinement call is also made to fail once', 'preemption bound per scenario 1-2, one more in thorough; 2-3 threads'),
'A04': ('the same shape constructed at the composed placement', 'shapes x placements x times x rays', ''),
'P01': ('the scan automaton: each pixel of the piece exactly once, spp samples', 'each piece is driven to exhaustion and twice past it', 'windows to 5x5 (8x8) and long ones, up to 16 (64) pieces'),
'P02': ('one sample per stratum per dimension; consumers get what they asked for', 'numpy.random.rand/shuffle are replaced by scripted sources: all permutations up to four entries, five named shuffles above', ''),
'P03': ('rational inverse CDF', 'all weight vectors over {0,1,2,5} and all breakpoints and their neighbours', 'length 4 (5)'),
'P04': ('measure preservation: numerical area element and census of equal-probability bins', 'complete grid per warp', '24x24 (96x96)'),
'F01': ('a per-pixel accumulator with the tabulated filter', 'explicit-state search over multisets of contributions per film', 'histories of 2 (3) contributions over all positions of the lattice'),
'F02': ('the sum of the contributions: no schedule may lose one, no failing operation may leave a lock taken', 'same scheduler as A03', ''),
'F03': ('closed-form profiles', 'every pair of grid offsets over 1.5 supports, alone and as arrays', ''),
'F04': ('pixel array model', 'histories of writes (all windows of a small picture) on scratch files', 'depth 3'),
'C01': ('independent pinhole / thin-lens / panorama model in plain lists', 'configurations x sample grid', ''),
'B01': ('closed forms per model, midpoint quadrature for energy', 'all ordered pairs of a spherical grid', ''),
'B02': ('set-based container: multiset of lobes, mask, hemisphere rule', 'all multisets of up to three from eight lobes x 3 frames x masks', ''),
'B03': ('Snell and Fresnel formulae', 'all ordered index pairs x angle grid x side', ''),
'B04': ('the density integrated over 48 regions versus the fraction of sampling cells landing there', 'complete sampling grid', ''),
'B05': ('brute-force neighbour search and table lookup', 'all pairs x tables; explicit-state search over load histories', 'three loads over four files'),
'M01': ('a BSDF assembled from the lobes each material is documented to have', 'all texture value combinations x pairs; bump against the displaced surface', ''),
'X01': ('plain lists; exact integral of the piecewise-linear table', 'all operand pairs, all two-step histories through an alias, all small tables in every input order', 'tables to 3 (4) points'),
'L01': ('closed-form radiometry', 'light x receiver x blocker sets', ''),
'L02': ('own image lookup (mc/mip.py) and panorama geometry', 'lights x images x directions, complete sample grids', ''),
'I01': ('a list-based recursive reference tracer (own intersection, Fresnel, shadowing)', 'scenes x light subsets x integrators x depths x rays; roulette and component outcomes enumerated through a scripted random source; all ordered pairs of rays for history independence', 'depth 3 (6)'),
'R02': ('picture and per-sample radiances of the tasks run one after another', 'which attributes of pre-existing objects the tasks store is observed first (attribute stores are monitored in a sequential run); every access to those is a switch point, as is every function entry', ''),
'R01': ('each sample offered exactly once with own radiance, faulty ones black', 'every placement of up to two faults among the samples of a render; all windows x task counts x task orders', ''),
'T01': ('a pyramid written with plain numbers (mc/mip.py)', 'basis images: by linearity of every lookup in the image, one lit texel at a time decides all images of that size', ''),
'T02': ('direct definitions (own noise from the published permutation)', 'all depth-two texture trees x points x footprints', ''),
'V01': ('analytic optical depth', 'media x placements x rays x cuts', ''),
'U01': ('integer and rational arithmetic', 'complete ranges', ''),
'N01': ('persistent-stack model of the interface state', 'explicit-state breadth-first search over call sequences on the real module', 'depth 4-6 by alphabet'),
}


def consts(pid):
    t = ast.parse(open(os.path.join(V, 'checks', pid + '.py')).read())
    out = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUME'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    o = [open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties', '']
    cost = json.load(open(os.path.join(V, 'tools', 'cost.json'))) if os.path.exists(os.path.join(V, 'tools', 'cost.json')) else {}
    for p in P:
        c = consts(p['id'])
        oracle, walk, bounds = N.get(p['id'], ('', '', ''))
        o += ['### %s — %s' % (p['id'], p['title']), '', p['statement'], '']
        o += ['- **Decided by** %s (level `%s`).' % (p['technique'], p['level'])]
        if oracle:
            o += ['- **Oracle:** %s.' % oracle, '- **Exploration:** %s.%s' % (walk, ' Bounds: %s.' % bounds if bounds else '')]
        o += ['- **Enumerated:** %s.' % c.get('RULE', '')]
        if c.get('ASSUME'):
            o += ['- **Left out / assumed:** %s.' % '; '.join(c['ASSUME'])]
        o += ['- **Why tests cannot settle it:** %s' % p['why']]
        q = cost.get(p['id'])
        if q:
            o += ['- **Cost:** quick %s s on 8 cores, %s' % (q['quick'], q['note'])]
        o += ['- **Code:** %s.' % ', '.join('`%s`' % f for f in p['files']), '']
    o += ['## Planted bugs', '', 'Each lies in `seeded/<id>/`, was written from the property text and the code, confirmed (applies to original lines only, stable tests pass, demonstration 0/nonzero) '
          'and tried against the quick check of its property by `tools/seed.py`. "Missed at first" means the check was strengthened because of it.', '', '| id | needs | caught by quick check of |', '|---|---|---|']
    miss = json.load(open(os.path.join(V, 'tools', 'missed.json')))
    for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
        fn = os.path.join(V, 'seeded', s, 'meta.json')
        if os.path.exists(fn):
            m = json.load(open(fn))
            o.append('| %s | %s | %s%s |' % (s, m['needs'], m['property'], ' (missed at first: %s)' % miss[s] if s in miss else ''))
    k = json.load(open(os.path.join(V, 'known_findings.json')))
    o += ['', '## Findings on the pinned tree', '', 'Known (not repaired):', '']
    o += ['- %s %s' % (e['property'], e['what']) for e in k if e['status'] == 'known']
    o += ['', 'Repaired, each in its own `fix:` commit:', '']
    o += ['- ' + e['line'].replace('fixed: property=', '') for e in k if e['status'] == 'fixed']
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o) + '\n')


main()
