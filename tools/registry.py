"""Single source of truth for properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None,
         hook=None, technique='', level='exploration', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe=observe,
                  state=state, hook=hook, technique=technique, level=level, note=note, na=na))


MC, EX, FE = 'model_checking', 'exploration', 'fault_enumeration'
REF = ' Bounds: the stated finite alphabet and depth; values outside it are not covered. Trusts the reference model in checks/ and IEEE double arithmetic.'

# ------------------------------------------------------------------ geometry and transforms
prop('G01', 'Bounding boxes behave as sets and clip rays exactly',
     "Uniting boxes and points yields the smallest axis-aligned box containing all of them in any order, with the default box as neutral element; "
     "containment, overlap, expansion, surface area, volume, longest axis, relative offset, interpolation, bounding sphere and equality (both senses) agree with that set view. "
     "Intersecting a ray with a box reports a hit exactly when the ray's parameter interval meets the box, and returns the entry and exit parameters clipped to that interval, for every direction including axis-parallel ones, without modifying ray or box.",
     ['inputs', 'histories'],
     "all boxes, points and rays on a small lattice (all sign patterns, degenerate extents, axis-parallel directions, bounded parameter intervals), and every sequence of up to three union/expand operations",
     "The tests sample a few random boxes; they never combine degenerate boxes, axis-parallel or backward rays, clipped intervals or inequality.",
     ['pytracer/geometry/__init__.py'], [('box algebra and slab test', 'pytracer/geometry/__init__.py:BBox')],
     technique='explicit-state search over union/expand histories plus exhaustive lattice of boxes x rays against an exact rational model', level=MC,
     note='Every reachable box of the bounded operation alphabet and every lattice ray is compared with an exact rational-arithmetic model.' + REF)

prop('G02', 'Transform chains act as exact affine and projective maps',
     "For every chain of translations, scalings, rotations, look-at placements and projections, the composed transform maps points (and, without projections, vectors, normals, rays and ray differentials) exactly as applying the steps one after another, and its inverse undoes it. "
     "Normals stay perpendicular to transformed tangents, a transformed box encloses every transformed point of the box, and handedness is reported as swapped exactly when the linear part has negative determinant. "
     "A camera placed with look-at maps its own origin to the eye and its viewing axis to the target direction, and no operation modifies its operands.",
     ['inputs', 'histories', 'programs'],
     "every chain of up to three elementary steps from a fixed alphabet (both signs of scale, all axes, skew rotation axis, look-at, perspective and orthographic), applied to every lattice point, vector, normal, ray and box",
     "The tests check single random transforms against their own formula; they never compose kinds, map boxes under rotations or mirrored scales, or carry ray differentials.",
     ['pytracer/transform/__init__.py'], [('matrix pair and typed application', 'pytracer/transform/__init__.py:Transform'), ('look-at', 'pytracer/transform/__init__.py:Transform.look_at')],
     technique='explicit-state search over chains of elementary transforms, each state replayed against an independent matrix model', level=MC,
     note='All chains up to the depth bound are replayed on the real classes and compared with an independent list-based matrix model.' + REF)

prop('G03', 'Animated transforms interpolate rigidly between their endpoints',
     "An animated transform equals its first keyframe at or before the start time and its last keyframe at or after the end time, and in between moves positions along the interpolated translation, rotation (constant-speed, along the shorter arc) and scale. "
     "A transform whose keyframes agree is the same at every time, points, vectors and rays are moved by the transform of the requested time (rays by their own time), and inverting or transforming at a time does not change later answers. "
     "The reported motion bounds of a box enclose that box at every time of the interval.",
     ['inputs', 'histories'],
     "every ordered pair of keyframes from a fixed alphabet of translations, rotations about several axes (including half turns) and scales, every time on a grid inside and outside the interval",
     "Tests exercise decomposition on a handful of random matrices with loose checks; rotation interpolation, times outside the interval and motion bounds are not tested.",
     ['pytracer/transform/__init__.py', 'pytracer/transform/quat.py'],
     [('decompose and interpolate', 'pytracer/transform/__init__.py:AnimatedTransform'), ('quaternion conversion and slerp', 'pytracer/transform/quat.py')],
     technique='bounded-exhaustive keyframe-pair x time enumeration against an axis-angle reference model', level=MC,
     note='Each keyframe pair is a small timed transition system; every grid time is queried in every order of interest and compared with an axis-angle model.' + REF)

prop('G04', 'Directions, frames and spherical angles are mutually consistent',
     "Building a frame from a unit direction yields three mutually perpendicular unit directions of a fixed orientation, normalising returns a unit vector (zero stays zero) without touching its argument, and orienting a normal towards a direction flips it exactly when they disagree. "
     "Converting a direction to its two spherical angles and back returns the direction, with the azimuth in the half-open full positive turn and the polar angle in the half turn. "
     "A ray copied from or derived from another keeps its origin, direction, interval, time and (plus one when derived) depth, scaling its differentials moves the offset rays proportionally towards the main ray, and writing to a copy never changes the original.",
     ['inputs', 'histories'],
     "all lattice directions including all axis and sign cases, and every sequence of up to three copy/derive/scale operations on rays",
     "Tests use random interior directions; pole, axis and sign-boundary directions and aliasing between copied rays are not reached.",
     ['pytracer/geometry/utility.py', 'pytracer/geometry/__init__.py'],
     [('frame and spherical helpers', 'pytracer/geometry/utility.py'), ('ray constructors', 'pytracer/geometry/__init__.py:Ray')],
     technique='bounded-exhaustive lattice of directions and explicit-state search over ray copy/derive/scale histories', level=MC,
     note='Complete lattice of directions; ray histories up to the depth bound with aliasing probes.' + REF)

# ------------------------------------------------------------------ shapes
prop('S01', 'Shapes report exactly their nearest ray hit',
     "For every sphere, cylinder, disk (whole or clipped in height, radius or sweep) and triangle under any placement, intersecting a ray reports a hit exactly when the ray's parameter interval meets the clipped surface, with the smallest such parameter, and a hit point lying on both the ray and the surface. "
     "A masked triangle is not hit where its mask is zero. The yes/no occlusion query always agrees with the full query, and neither modifies the ray.",
     ['inputs', 'configurations'],
     "every shape configuration of a fixed alphabet (full, clipped, reversed, translated, rotated, mirrored) against every ray of a lattice of origins, directions and parameter intervals, except within rounding of a silhouette or clipping edge",
     "Shapes have no tests beyond being importable; partial shapes, interval clipping, origins inside the shape and mirrored placements are never run.",
     ['pytracer/shape/sphere.py', 'pytracer/shape/cylinder.py', 'pytracer/shape/disk.py', 'pytracer/shape/triangle.py'],
     [('quadric solve and clipping', 'pytracer/shape/sphere.py:Sphere.intersect'), ('barycentric test', 'pytracer/shape/triangle.py:Triangle.intersect')],
     technique='bounded-exhaustive enumeration of shape configurations x lattice rays x intervals against an analytic oracle', level=EX,
     note='Every shape/ray/interval combination of the lattice is run on the real code against an analytic all-roots oracle; grazing cases are counted and left undecided.' + REF)

prop('S02', 'Hit geometry matches the surface parametrisation',
     "At every reported hit the surface coordinates lie in the unit square and parametrise the hit point, the reported position tangents and normal derivatives are the true partial derivatives of the surface at those coordinates, and the normal is the unit direction perpendicular to the tangents, flipped exactly by the reversed-orientation flag and by mirrored placement; for a ray with offset rays, the screen-space derivatives say where those meet the tangent plane. "
     "The object-space and world-space bounds contain the whole clipped surface, and the reported area is the area of that surface.",
     ['inputs', 'configurations'],
     "every shape configuration of the alphabet and every lattice ray that hits it; every surface point of a parameter grid for bounds",
     "Shapes have no tests; a wrong derivative or coordinate only shows up as subtly wrong shading.",
     ['pytracer/shape/sphere.py', 'pytracer/shape/cylinder.py', 'pytracer/shape/disk.py', 'pytracer/shape/triangle.py', 'pytracer/geometry/diffgeom.py'],
     [('parametric derivatives', 'pytracer/shape/sphere.py:Sphere.intersect'), ('bounds and area', 'pytracer/shape/__init__.py')],
     technique='bounded-exhaustive enumeration of hits, finite-difference and analytic oracle of the parametrisation', level=EX,
     note='Every lattice hit is checked against an independent parametrisation and its finite differences.' + REF)

prop('S03', 'Shape sampling covers the surface with the density it reports',
     "Points sampled on a whole or clipped sphere, a cylinder, a disk or a triangle for any pair of unit-interval numbers lie on the clipped surface with a unit normal oriented as for a ray hit there, and equal areas of the unit square cover equal areas of the surface. "
     "The density a shape reports for a direction from a reference point equals the distance squared over area and cosine of the point seen in that direction (or the constant of the subtended cone for a sphere seen from outside), is zero for directions that miss, and directions drawn towards the shape from a reference point do hit it.",
     ['inputs', 'configurations'],
     "every sampled shape configuration, every cell of a grid over the unit square, and every lattice reference point and direction",
     "No test samples a shape; a biased sampler still returns plausible points and only shifts the brightness of rendered images.",
     ['pytracer/shape/__init__.py', 'pytracer/shape/sphere.py', 'pytracer/shape/cylinder.py', 'pytracer/shape/disk.py', 'pytracer/shape/triangle.py'],
     [('area sampling', 'pytracer/shape/*.py:sample'), ('solid angle density', 'pytracer/shape/__init__.py:Shape.pdf_p')],
     technique='bounded-exhaustive grid over the unit square with an area-preservation (cell census) oracle', level=EX,
     note='Complete grid over the unit square; equal-area census of the image cells.' + REF)

prop('S04', 'Subdivision and mesh refinement preserve the mesh',
     "Refining a triangle mesh yields exactly its triangles with their own vertices, coordinates and orientation, inconsistent mesh data is rejected, and shading frames interpolate the corner normals and tangents onto the side of the hit normal. "
     "Each level of loop subdivision turns every face into four, keeps the connectivity closed or bounded exactly as before with consistent orientation, and places every vertex as the loop weights prescribe for its valence and boundary status, ending on the limit surface with its tangent normal; a flat mesh stays in its plane and the result does not depend on the order in which faces or vertices are listed.",
     ['inputs', 'configurations'],
     "every oriented manifold surface on up to five vertices and a catalogue of larger ones (fans of several valences, grids, tori, solids) under permuted listings of faces and vertices, zero to three levels",
     "No test refines anything; the loop subdivision code is never executed by the suite.",
     ['pytracer/shape/loopsubdiv.py', 'pytracer/shape/triangle.py'],
     [('loop refinement', 'pytracer/shape/loopsubdiv.py:LoopSubdiv.refine'), ('mesh refinement', 'pytracer/shape/triangle.py:TriangleMesh.refine')],
     technique='explicit-state enumeration of small meshes x listings x levels against a set-based subdivision model', level=MC,
     note='All catalogue meshes and listings are refined by the real code and compared with an adjacency-set model.' + REF)

# ------------------------------------------------------------------ aggregates
prop('A01', 'Every aggregate finds the same nearest hit as testing each object',
     "For any set of objects and any ray, the plain list, the uniform grid and the bounding-volume hierarchy (with each of its split strategies and leaf sizes) report a hit exactly when some object is hit within the ray's interval, and return the nearest such object and its parameter, independent of the order in which objects are listed. "
     "Their occlusion query agrees with that answer, and their reported world bound encloses every object.",
     ['inputs', 'configurations'],
     "every small scene of a catalogue (overlapping, coincident-centroid, flat, axis-aligned, clustered and far-apart objects, including meshes that need refinement) in several listing orders, against every ray of a lattice including axis-parallel rays and bounded intervals",
     "No test builds an aggregate; the render test is too slow to be run and uses two objects.",
     ['pytracer/aggregate/aggregate.py', 'pytracer/aggregate/accelerator/bvh.py', 'pytracer/aggregate/primitive.py'],
     [('BVH build and traversal', 'pytracer/aggregate/accelerator/bvh.py:BVH'), ('grid walk', 'pytracer/aggregate/aggregate.py:GridAccel'), ('list scan', 'pytracer/aggregate/aggregate.py:SimpleAggregate')],
     technique='bounded-exhaustive scenes x listings x accelerator configurations x lattice rays, brute-force oracle', level=EX,
     note='Every accelerator configuration on every catalogue scene and ray is compared with an independent brute-force scan.' + REF)

prop('A02', 'Ray queries are repeatable and only ever shorten the ray',
     "After a hit, the ray's upper limit equals the hit parameter, after a miss or an occlusion query the ray is unchanged, and continuing with the same ray against further objects or aggregates never accepts a farther hit. "
     "Any history of earlier queries, including those that trigger deferred refinement, leaves the answer to every later query the same as on a freshly built aggregate, and the hit record describes the object that produced the final parameter.",
     ['histories'],
     "every sequence of up to three queries (nearest or occlusion, from a menu of rays) against one shared aggregate of each kind",
     "Tests never issue two queries; only histories expose state left behind by refinement, traversal or a shortened ray.",
     ['pytracer/aggregate/aggregate.py', 'pytracer/aggregate/primitive.py', 'pytracer/aggregate/accelerator/bvh.py', 'pytracer/aggregate/intersection.py'],
     [('ray limit update', 'pytracer/aggregate/primitive.py:GeometricPrimitive.intersect'), ('deferred refinement', 'pytracer/aggregate/aggregate.py:Voxel')],
     technique='explicit-state search over query histories on the real aggregates, differential against fresh instances', level=MC,
     note='All query histories up to the depth bound from a fixed menu; each is replayed on the real objects.' + REF)

prop('A03', 'Concurrent ray queries on a lazily refined grid stay correct',
     "When several threads query one grid whose objects are refined on first use, every thread gets the answer it would get alone, under every interleaving; no refinement is lost or seen half done, no query deadlocks, and all locks are free afterwards even if a refinement fails.",
     ['schedules', 'fault_sequences'],
     "every interleaving of two querying threads on a shared grid up to the preemption bound, with switches possible at every shared access, plus every single refinement failure",
     "The suite is single threaded and never builds a grid.",
     ['pytracer/aggregate/aggregate.py'],
     [('per-cell lock and refined flag', 'pytracer/aggregate/aggregate.py:Voxel.intersect')],
     technique='stateless preemption-bounded schedule exploration of the real code under a controlled scheduler', level=MC,
     note='All schedules of the two-thread harness within the preemption bound, switching at byte-code level; the memory model is that of the interpreter.' + REF)

prop('A04', 'Placed and moving instances answer like the object placed there',
     "An instance of an object or group under a fixed or moving placement answers nearest-hit and occlusion queries exactly like that object built at the composed placement of the ray's time: same decision, same hit parameter (the ray's upper limit), same point, normal, tangents, normal derivatives and surface coordinates, and a hit record naming the instance and carrying the composed object/world transforms. "
     "Its world bound encloses it at every time of the motion, an instance of something that needs refinement refines into instances, and one group may be shared by several instances inside any aggregate. "
     "Apart from its upper limit after a hit, the caller's ray is not changed.",
     ['inputs', 'configurations'],
     "every catalogue shape under still, rigid, mirrored, sheared and moving placements, queried before, during and after the motion by every lattice ray and several intervals, plus groups shared by four instances inside every kind of aggregate",
     "No test creates an instance.",
     ['pytracer/aggregate/primitive.py', 'pytracer/aggregate/intersection.py'],
     [('instance query and record', 'pytracer/aggregate/primitive.py:TransformedPrimitive')],
     technique='bounded-exhaustive shapes x placements x times x rays, differential against the same shape built in place', level=EX,
     note='Each instance answer is compared with the shape constructed at the composed placement; groups are compared with a brute-force scan.' + REF)

# ------------------------------------------------------------------ sampling
prop('P01', 'Samplers cover every pixel of the image exactly once',
     "Over its whole run a sampler emits, for every pixel of its window exactly once, a batch of exactly the requested number of samples whose image positions lie inside that pixel, then reports exhaustion forever. "
     "When a window is split into any number of sub-windows, the pieces are disjoint and together cover exactly the window, for windows of any size, aspect and origin, and samplers made for the pieces jointly emit what the undivided sampler emits.",
     ['inputs', 'configurations', 'histories'],
     "all small windows (any origin, width and height), all split counts up to a bound and all samples-per-pixel shapes up to a bound, each driven to exhaustion and beyond",
     "No test drives a sampler; gaps or overlaps only appear for particular window sizes and split counts.",
     ['pytracer/sampler/sampler/__init__.py', 'pytracer/sampler/sampler/stratified.py'],
     [('scan position', 'pytracer/sampler/sampler/stratified.py'), ('sub-window split', 'pytracer/sampler/sampler/__init__.py:Sampler.compute_subwindow')],
     technique='explicit-state exploration of the sampler state machine driven to exhaustion for every window and split', level=MC,
     note='Complete enumeration of windows, split counts and sample grids up to the bound; every sampler is run to exhaustion.' + REF)

prop('P02', 'Sample patterns are stratified and delivered to the right consumer',
     "Within a batch, image, lens and time samples each place exactly one sample in every stratum and lie in their unit ranges (time inside the shutter interval), with or without jitter, for every outcome of the random source. "
     "Every one- or two-dimensional sample array requested by an integrator is delivered with the requested size, in the unit interval, one value per stratum in every dimension (latin hypercube), at the position returned for the request, and batches do not share storage.",
     ['inputs', 'histories'],
     "all stratum shapes up to a bound, every random source from a fixed extreme-value alphabet, and all sequences of up to three array requests",
     "No test draws samples; a shifted offset or shared buffer between consumers still yields plausible numbers.",
     ['pytracer/sampler/sample.py', 'pytracer/sampler/utility.py', 'pytracer/sampler/sampler/stratified.py'],
     [('stratification', 'pytracer/sampler/utility.py'), ('request bookkeeping', 'pytracer/sampler/sample.py:Sample')],
     technique='bounded-exhaustive stratum shapes and request histories with a controlled random source', level=MC,
     note='The random source is replaced by an enumerated adversary (extreme values and permutations).' + REF)

prop('P03', 'Tabulated distributions sample exactly what they tabulate',
     "For every table of non-negative weights with a positive sum, continuous and discrete sampling return each entry for exactly its share of the unit interval, continuous positions lie inside that entry's segment of the unit interval and increase with the random number, and the reported density or probability is the normalised weight of the returned position. "
     "Entries of zero weight are never returned, and the two-dimensional table factors as marginal times conditional with continuous coordinates in the unit square whose density, queried back, equals the reported one.",
     ['inputs'],
     "all weight vectors up to a length and all small weight matrices over a small alphabet including zeros, every random number on a fine grid plus the segment boundaries",
     "No test covers tabulated sampling; zero entries and exact boundaries are precisely what random tests miss.",
     ['pytracer/montecarlo/distribution.py'],
     [('CDF construction and inversion', 'pytracer/montecarlo/distribution.py')],
     technique='bounded-exhaustive weight tables x random-number grid against an exact rational inverse-CDF model', level=EX,
     note='All small weight tables, exact rational oracle.' + REF)

prop('P04', 'Sample warps preserve measure and report their true density',
     "Each warp of the unit square (uniform and concentric disk, uniform sphere and hemisphere, cosine hemisphere, cone, triangle, phase-function lobe) lands on its target domain for every input and carries equal areas of the square onto regions of equal probability under the density that is reported for it, and the concentric disk mapping is continuous over the whole square. "
     "Combining two strategies with the balance or power heuristic gives weights in the unit interval that sum to one over the strategies whenever any of them has positive density.",
     ['inputs'],
     "a complete grid over the unit square including its boundary for every warp, and all small sample counts and densities for the heuristics",
     "No test covers the warps; a wrong density keeps all points in range and only biases images.",
     ['pytracer/montecarlo/utility.py'],
     [('warps and densities', 'pytracer/montecarlo/utility.py')],
     technique='bounded-exhaustive grid over the unit square with an analytic measure-preservation (cell census) oracle', level=EX,
     note='Grid census compares the mass of analytic bins with the share of grid cells landing there, plus the numerical Jacobian against the reported density.' + REF)

# ------------------------------------------------------------------ film, filter, image
prop('F01', 'The film reconstructs exactly the filtered weighted average',
     "After any sequence of samples and splats, every pixel of the written image equals the filter-weighted average of the samples whose filter footprint contains the pixel centre, plus the scaled sum of the splats landing in it, with negative averages clamped to zero and pixels without samples left black. "
     "Only pixels of the crop window are affected, contributions outside it are ignored without error, and the extent from which samples must be generated contains every position that can influence a pixel of the crop window.",
     ['histories', 'inputs', 'configurations'],
     "every history of up to three contributions from a menu of positions (inside, on pixel borders, outside, near the crop edge) and colours, for several filters, crop windows and image aspects",
     "No test touches the film; errors appear only for particular crops, aspect ratios or border positions.",
     ['pytracer/film/film.py'], [('accumulate and normalise', 'pytracer/film/film.py:ImageFilm')],
     technique='explicit-state search over contribution histories against a per-pixel reference accumulator', level=MC,
     note='All histories up to the depth bound, all pixels compared with an independent accumulator.' + REF)

prop('F02', 'Concurrent film contributions are never lost',
     "When several threads add samples and splats to one film, every interleaving ends with exactly the pixel values of the sequential execution: no contribution is lost, duplicated or torn. "
     "No interleaving deadlocks, and all locks are free afterwards, even when a contribution fails midway.",
     ['schedules', 'fault_sequences'],
     "every interleaving of two threads contributing to overlapping pixels up to the preemption bound, with switches possible at every shared access, and every contribution failing at its accumulation step",
     "The suite is single threaded and never touches the film.",
     ['pytracer/film/film.py'], [('per-pixel lock', 'pytracer/film/film.py:ImageFilm.add_sample')],
     technique='stateless preemption-bounded schedule exploration of the real code under a controlled scheduler', level=MC,
     note='All schedules of the two-thread harness within the preemption bound, switching at byte-code level; the memory model is that of the interpreter.' + REF)

prop('F03', 'Reconstruction filters are symmetric, bounded and consistent',
     "Each reconstruction filter returns its defining profile at every offset inside its half-widths, is symmetric in both axes, and vanishes on and beyond the edge of its support where its profile does. "
     "Asking for many offsets at once gives exactly the values of asking one by one, and no query changes the offsets or later answers.",
     ['inputs'],
     "every filter kind with several half-widths and parameters, every offset on a grid spanning the support and its border, scalar and array queries",
     "No test evaluates a filter.",
     ['pytracer/filter/filter.py'], [('filter profiles', 'pytracer/filter/filter.py')],
     technique='bounded-exhaustive offset grid per filter configuration against closed-form profiles', level=EX,
     note='Complete grid of offsets per configuration against independent closed forms.' + REF)

# ------------------------------------------------------------------ camera
prop('C01', 'Camera rays project back to the sample they were made for',
     "For every camera placement, screen window, film aspect and field of view, the ray generated for an image position passes (for orthographic, pinhole-perspective and environment cameras) through the world points that project to that position, and with a lens all rays for one image position meet at one point of the focal plane while starting on the lens disk. "
     "Rays carry the sample's time, weight one and a usable forward interval, and ray differentials equal the rays of the horizontally and vertically adjacent image positions.",
     ['inputs', 'configurations'],
     "every camera configuration of an alphabet (kind, placement, window, aspect, field of view, lens, shutter, static and moving) and every image, lens and time sample on a grid",
     "No test constructs a camera.",
     ['pytracer/camera/camera.py', 'pytracer/camera/projective.py', 'pytracer/camera/environment.py'],
     [('raster-to-camera chain', 'pytracer/camera/camera.py:ProjectiveCamera'), ('ray generation', 'pytracer/camera/projective.py')],
     technique='bounded-exhaustive camera configurations x sample grid against an independent pinhole/lens model', level=EX,
     note='Every configuration and grid sample is compared with an independent projection model.' + REF)

# ------------------------------------------------------------------ reflection
prop('B01', 'Scattering functions are physical',
     "Every reflection and transmission model (diffuse, rough diffuse, microfacet with each distribution, layered diffuse-glossy, mirrored and scaled wrappers) returns finite non-negative values for every pair of directions off the surface plane, depends symmetrically on them, equals its published closed form on the side it scatters to, and declares the kind it is. "
     "No model scatters more energy than it receives: the hemispherical reflectance it integrates to, and the reflectance it reports, never exceeds one for reflectance colours up to one.",
     ['inputs', 'configurations'],
     "every model with parameters from an alphabet, every pair of directions on a spherical grid including grazing and normal incidence",
     "No test evaluates a scattering function.",
     ['pytracer/reflection/bdf/bdf.py', 'pytracer/reflection/bdf/orennayar.py', 'pytracer/reflection/bdf/torrance.py', 'pytracer/reflection/bdf/fresnelblend.py'],
     [('model formulae', 'pytracer/reflection/bdf/')],
     technique='bounded-exhaustive direction-pair grid per model against closed-form reference values and quadrature', level=EX,
     note='Complete direction grid with reference formulae; energy by quadrature over the grid.' + REF)

prop('B02', 'Scattering containers select and combine lobes correctly',
     "A surface's combined scattering value is the sum of exactly those lobes that match the requested kinds and the geometric side of the two directions, evaluated in a local frame whose conversion to and from world space is a rotation. "
     "Sampling returns a direction from a matching lobe together with the combined value and the average density over the matching lobes, as evaluating both afterwards at that direction would give (a perfectly specular lobe reports its own), and counting, matching and merging of kinds follow set inclusion for every combination of kinds.",
     ['inputs', 'configurations'],
     "all 32 kind masks against all lobe kinds, every multiset of up to three lobes from a menu, every direction pair and random-number triple on a grid, frames with equal and differing geometric normal",
     "No test builds a combined scattering function.",
     ['pytracer/reflection/bsdf.py', 'pytracer/reflection/bdf/bdf.py'],
     [('lobe selection', 'pytracer/reflection/bsdf.py:BSDF.sample_f'), ('kind flags', 'pytracer/reflection/bdf/bdf.py:BDFType')],
     technique='bounded-exhaustive lobe multisets x kind masks x direction and random-number grid against a set-based model', level=EX,
     note='All multisets, masks and grid directions compared with a reference that sums stub and real lobes explicitly.' + REF)

prop('B03', 'Fresnel and refraction obey the laws of optics',
     "Dielectric reflectance lies between zero and one, equals the exact unpolarised Fresnel formula from both sides, is symmetric under exchanging sides along the refracted path, and is total beyond the critical angle; conductor reflectance lies between zero and one and matches its formula. "
     "Mirror reflection leaves at the mirrored direction carrying the full reflectance, refraction leaves at Snell's angle on the opposite side carrying the remainder with the radiance scaling of the index ratio, and no energy is transmitted under total internal reflection.",
     ['inputs'],
     "all pairs of refraction indices from an alphabet, both sides, all incidence angles on a grid with azimuths",
     "No test evaluates Fresnel terms or specular lobes.",
     ['pytracer/reflection/fresnel.py', 'pytracer/reflection/utility.py', 'pytracer/reflection/bdf/bdf.py'],
     [('Fresnel formulae', 'pytracer/reflection/utility.py'), ('specular lobes', 'pytracer/reflection/bdf/bdf.py')],
     technique='bounded-exhaustive index-pair x angle grid against the textbook formulae', level=EX,
     note='Complete index/angle grid against independent complex-free formulae.' + REF)

prop('B04', 'Sampling a scattering lobe matches its own density',
     "For every non-specular lobe, a sampled incident direction is a unit direction on the side the lobe scatters to, the value and density returned with it equal those obtained by asking for that direction afterwards (a sample that misses that side carries no value), and the density integrates to at most one over directions. "
     "Equal areas of the sampling square are carried onto direction regions of equal integrated density.",
     ['inputs', 'configurations'],
     "every lobe kind with parameters from an alphabet, every outgoing direction of a grid on both sides, every cell of a grid over the unit square",
     "No test samples a scattering function.",
     ['pytracer/reflection/bdf/bdf.py', 'pytracer/reflection/bdf/torrance.py', 'pytracer/reflection/bdf/fresnelblend.py'],
     [('lobe sampling', 'pytracer/reflection/bdf/')],
     technique='bounded-exhaustive sampling grid with density-versus-census comparison', level=EX,
     note='Grid census of the sampled directions against the quadrature of the reported density.' + REF)

prop('B05', 'Measured surfaces interpolate exactly the measurements they were given',
     "A surface measured at scattered directions answers every direction pair with the average of the samples found around it (in the coordinates that identify pairs mirrored, rotated about the normal or exchanged), weighted by exp(-100 d^2), over the first of the growing search radii that holds at least three samples (or all samples when the radius exceeds 1.5); "
     "it therefore never leaves the range of its samples and does not change them. A surface tabulated over half-angle, difference-angle and difference-azimuth cells answers with the cell containing the pair, from either side. "
     "Loading a measurement file yields one sample per record whatever the comments and line breaks, loading it again (or another file of the same name elsewhere) yields that file's own data.",
     ['inputs', 'histories'],
     "every direction pair of a spherical grid (including equal, mirrored, grazing and below-surface pairs) x sample tables of one to nine samples x table shapes; every history of up to three loads over four files, two of which share a name",
     "No test evaluates a measured surface or loads a measurement.",
     ['pytracer/reflection/bdf/measured.py', 'pytracer/reflection/utility.py', 'pytracer/material/material.py'],
     [('scattered lookup', 'pytracer/reflection/bdf/measured.py:IrIsotropicBRDF'), ('tabulated lookup', 'pytracer/reflection/bdf/measured.py:ReHalfangleBRDF'), ('file cache', 'pytracer/material/material.py:MeasuredMaterial')],
     technique='bounded-exhaustive direction-pair and table enumeration plus explicit-state search over load histories against a list model', level=MC,
     note='All pairs of the grid and all load histories against a brute-force search over the samples.' + REF)

prop('M01', 'Materials describe the surface their textures prescribe',
     "Every material evaluated at a surface point yields the scattering function prescribed by its textures there: the lobes of non-black colours and no others, with clamped colours, the prescribed roughness, refraction index and opacity split, oriented by the given geometric and shading normals. "
     "A mixture of two materials scatters exactly the textured blend of both, black colours contribute nothing, evaluating a material never changes the materials or the surface record, and bump displacement tilts the normal as the displaced surface would.",
     ['inputs', 'configurations'],
     "every material kind, every combination of black, partial, full and out-of-range texture values from an alphabet, direction pairs on a grid, constant and sloped bump textures",
     "No test evaluates a material.",
     ['pytracer/material/material.py'], [('lobe assembly', 'pytracer/material/material.py')],
     technique='bounded-exhaustive texture-value combinations x direction grid against independently assembled lobes', level=EX,
     note='All combinations from the value alphabet; the expected lobe sum is assembled by the checker.' + REF)

# ------------------------------------------------------------------ lights
prop('L01', 'Lights illuminate by distance, cone and visibility',
     "Point and spot lights deliver intensity over squared distance (spot scaled by its smooth cone falloff between total width and falloff start), directional lights deliver constant radiance, and area lights deliver their radiance only from the emitting side of their surface, always with the true unit direction towards the light. "
     "The visibility segment handed out joins exactly the shaded point and the light (endpoints excluded) with the requested time, so it is reported blocked exactly when some object lies strictly between them.",
     ['inputs', 'configurations'],
     "every light kind with placements and cone angles from an alphabet, every lattice receiver position and random number on a grid, blockers before, between and behind",
     "No test touches lights.",
     ['pytracer/light/light.py', 'pytracer/light/utility.py'],
     [('light sampling', 'pytracer/light/light.py'), ('visibility segment', 'pytracer/light/utility.py:VisibilityTester')],
     technique='bounded-exhaustive light x receiver x blocker configurations against closed-form radiometry', level=EX,
     note='Complete lattice of receivers and blockers against closed forms.' + REF)

prop('L02', 'Image-carrying lights deliver their image',
     "Projection lights deliver intensity over squared distance times the pixel their perspective projection sees and nothing outside the screen or behind; goniometric lights scale by the pixel of the direction; without an image both are unscaled. "
     "An environment light shows along each escaping ray the pixel of that direction, draws directions whose reported density is the density it reports for that direction, draws every direction that carries radiance, and its sample estimates converge to the integral of its radiance. "
     "Rays leaving these lights start where the light is (or around the scene), carry the radiance of their direction, and their densities match how they were drawn.",
     ['inputs', 'configurations'],
     "every light kind x placement x image (sizes square and not, power of two and not) x field of view, every receiver of a lattice, every direction and random number on a grid",
     "No test touches lights; images of lights could not even be loaded.",
     ['pytracer/light/light.py'],
     [('projection', 'pytracer/light/light.py:ProjectionLight'), ('goniometric', 'pytracer/light/light.py:GonioPhotometricLight'), ('environment', 'pytracer/light/light.py:InfiniteAreaLight')],
     technique='bounded-exhaustive lights x images x directions against closed-form lookups and complete sample grids', level=EX,
     note='Complete lattice of receivers, directions and sample grids against reference lookups.' + REF)

# ------------------------------------------------------------------ integrators, renderer
prop('I01', 'Integrators return the light that physically reaches the camera',
     "On scenes small enough to solve by hand (emitters, mirrors, glass and diffuse receivers, with and without blockers), the surface integrators return exactly the emitted plus reflected and transmitted radiance: emitters seen directly are counted once, shadowed lights contribute nothing, every unshadowed light contributes once. "
     "Specular bounces and paths stop at the configured depth, so an integrator always terminates even between facing mirrors, and one evaluation does not influence the next.",
     ['inputs', 'configurations', 'histories'],
     "every small scene of a catalogue, every integrator and depth limit up to a bound, every camera ray of a grid, repeated in every order of pairs",
     "The only integration test takes too long to be part of the suite and asserts nothing.",
     ['pytracer/integrator/surface/direct.py', 'pytracer/integrator/surface/path.py', 'pytracer/integrator/surface/whitted.py', 'pytracer/integrator/utility.py'],
     [('direct lighting estimate', 'pytracer/integrator/utility.py'), ('recursion limit', 'pytracer/integrator/surface/')],
     technique='bounded-exhaustive catalogue of closed-form scenes x depth limits x rays on the real integrators', level=EX,
     note='Closed-form radiance for each catalogue scene.' + REF)

prop('R01', 'Rendering contributes every valid sample once and rejects the rest',
     "A rendering pass offers every camera sample of the image to the film exactly once, whatever the number of tasks the image is divided into, with the camera ray's weight applied. "
     "Radiance that is not a number, infinite or clearly negative is replaced by black before it reaches the film, whichever samples and channels it occurs in, and does not affect any other sample; the image is written once, after all contributions.",
     ['histories', 'fault_sequences', 'configurations'],
     "every small image size, task count and sample count up to a bound, and every placement of up to two faulty radiance values of each kind among the samples",
     "The render test is excluded from the suite and never injects invalid radiance.",
     ['pytracer/renderer/renderer.py'], [('task loop and radiance guards', 'pytracer/renderer/renderer.py:SamplerRendererTask')],
     technique='exhaustive fault injection of radiance values over the real render loop, all placements up to two faults', level=FE,
     note='All fault placements up to two among all samples of small images.' + REF)

prop('R02', 'Render tasks running at once give the picture of one after another',
     "Render tasks that run at the same time over one scene, integrator, sampler, camera and film give every camera sample exactly the radiance it gets when the tasks run one after another, and the film ends with the same picture, under every interleaving: "
     "scenes whose objects are refined on first use, filtered image textures, moving instances, mirrors, glass and several emitters included. No task fails, deadlocks or leaves a lock held, in whatever order the tasks are started.",
     ['schedules'],
     "every interleaving of two or three render tasks of a small image up to the preemption bound, with switches possible at every function entry of the rendering code and at every access to state shared by the tasks",
     "The suite never runs a render task, let alone two at a time.",
     ['pytracer/renderer/renderer.py', 'pytracer/integrator/surface', 'pytracer/integrator/utility.py', 'pytracer/aggregate/aggregate.py', 'pytracer/film/film.py', 'pytracer/texture/utility.py', 'pytracer/sampler/sample.py'],
     [('task-local samples, rays and intersections', 'pytracer/renderer/renderer.py:SamplerRendererTask.__call__'), ('sub-sampler per task', 'pytracer/sampler/sampler/stratified.py:get_subsampler'), ('sample copies', 'pytracer/sampler/sample.py:Sample.duplicate')],
     technique='stateless preemption-bounded schedule exploration of the real render tasks under a controlled scheduler', level=MC,
     note='All schedules of the listed scenarios within the preemption bound, switching at function entries and accesses to stored shared attributes; the memory model is that of the interpreter.' + REF)

# ------------------------------------------------------------------ texture, volume, spectrum
prop('T01', 'Image pyramids filter without inventing or losing colour',
     "A mip-map of a constant image is that constant at every position and width (outside a black-wrapped image being black); each coarser level is the average of the finer one, and texel access wraps, clamps or blackens coordinates of any sign as configured, for square and non-square images. "
     "Every filtered lookup is a weighted average of texels (never leaving their range), reproduces bilinear interpolation at the finest level, varies continuously with width, and does not modify its arguments, the image or the pyramid. An image texture looks up the pixels of its file, scaled and gamma corrected, whatever other textures of the same file exist.",
     ['inputs', 'configurations', 'histories'],
     "all images up to a small size (power-of-two or not, square or not) over basis images, all wrap modes, all lookups on a grid of positions and widths in and outside the unit square, isotropic and anisotropic",
     "No test builds a mip-map.",
     ['pytracer/texture/utility.py'], [('pyramid and filtered lookup', 'pytracer/texture/utility.py:MIPMap'), ('image textures', 'pytracer/texture/texture/image.py')],
     technique='bounded-exhaustive basis images x wrap modes x lookups against a reference pyramid', level=EX,
     note='Lookups are linear in the image, so basis images decide all images of each size.' + REF)

prop('T02', 'Procedural textures and mappings follow their definitions',
     "Constant, scaled, mixed and bilinear textures combine their inputs as defined, checkerboards pick the texture of the cell containing the point in two and three dimensions for coordinates of any sign (and a box-filtered blend of both when antialiased), and mappings return the texture coordinates and derivatives of their projection for every surface point. "
     "Noise is continuous, zero at integer lattice points and repeats with its period; the octave sums and the textures built on them (bumps, wrinkles, waves, marble, dots) follow their definition and do not jump as the footprint grows. The footprint of a pixel on a surface is where its offset rays meet the tangent plane, with matching (u, v) changes, and evaluating a texture never changes the surface point.",
     ['inputs', 'configurations'],
     "all lattice and half-lattice surface points of both signs, every texture kind and nesting depth two, every mapping with an alphabet of placements",
     "No test evaluates a texture.",
     ['pytracer/texture/texture/__init__.py', 'pytracer/texture/texturemap/__init__.py', 'pytracer/texture/utility.py'],
     [('texture evaluation', 'pytracer/texture/texture/__init__.py'), ('mappings', 'pytracer/texture/texturemap/__init__.py')],
     technique='bounded-exhaustive texture trees x surface-point lattice against direct definitions', level=EX,
     note='All texture trees of depth two over the alphabet on a complete point lattice.' + REF)

prop('V01', 'Participating media absorb, scatter and add up consistently',
     "Each phase function is non-negative and normalised over the sphere; a medium has its coefficients inside its extent (density scaled where applicable) and none outside, under any placement, and attenuation is absorption plus scattering. "
     "Optical thickness along a ray covers exactly the part of the ray's interval inside the medium, is additive over adjoining segments, and a collection of media behaves as the sum of its members with a bound enclosing them all, a scene being bounded by its shapes and its media together. Named measured media and materials report the coefficients measured for that name.",
     ['inputs', 'configurations'],
     "every medium kind with placements and coefficients from an alphabet, every lattice point, ray and interval, every direction pair on a grid for the phase functions",
     "No test constructs a medium.",
     ['pytracer/volume/volume.py', 'pytracer/volume/utility.py'],
     [('media', 'pytracer/volume/volume.py'), ('phase functions', 'pytracer/volume/utility.py')],
     technique='bounded-exhaustive media x placements x ray lattice against analytic optical depth', level=EX,
     note='Complete lattice of rays and points against analytic segment lengths.' + REF)

prop('X01', 'Spectra obey vector arithmetic and convert consistently',
     "Colour arithmetic is componentwise on any operands and never modifies an operand it does not assign to; comparison, blackness, clamping, interpolation, power, exponential and square root follow the components, and luminance is linear. "
     "Conversion between colour spaces round-trips, sampled spectra built from tabulated data equal the exact average of the piecewise-linear data over each band for unsorted, unevenly spaced or truncated tables and leave the tables as they were, and an equal-energy colour stays achromatic through conversion.",
     ['inputs', 'histories'],
     "all colours over a small component alphabet, all operation pairs, all tabulations of up to four points over a small wavelength and value alphabet including ones that do not span the bands",
     "Tests compare a few random spectra; they never check aliasing, unsorted or truncated tables, or round trips.",
     ['pytracer/spectral/spectrum.py'], [('resampling', 'pytracer/spectral/spectrum.py:average_spectrum_samples'), ('conversion', 'pytracer/spectral/spectrum.py')],
     technique='explicit-state search over arithmetic histories and bounded-exhaustive tabulations against exact integrals', level=MC,
     note='All operation histories and tabulations of the alphabet against list arithmetic and exact trapezoids.' + REF)

prop('F04', 'Written image files contain the pixels they were given',
     "Writing an image and reading it back returns the same picture up to eight-bit quantisation and the documented normalisation, for every image size and aspect, with any transparency dropped; writing a partial window changes exactly that window of an existing picture. "
     "Neither call modifies the arrays it is given.",
     ['inputs', 'histories'],
     "all small image sizes and pixel patterns of an alphabet, all windows of a small picture, and every sequence of up to two writes",
     "No test writes or reads an image.",
     ['pytracer/utility/imageio.py'], [('read and write', 'pytracer/utility/imageio.py')],
     technique='explicit-state search over write histories on scratch files against a pixel-array model', level=MC,
     note='All write histories up to depth two over the size/window alphabet, in a scratch directory.' + REF)

prop('U01', 'Scalar helpers are exact',
     "Rounding down, up and to nearest return the mathematical integer for every sign and exact value, power-of-two predicates and roundings return the true power for every size, and linear interpolation returns its endpoints at zero and one. "
     "Clamping keeps in-range values, maps others to the nearest bound, works alike on scalars and arrays, and preserves the kind of its argument.",
     ['inputs'],
     "all integers up to a bound, all lattice reals of both signs",
     "No test calls these helpers directly.",
     ['pytracer/utility/utility.py'], [('helpers', 'pytracer/utility/utility.py')],
     technique='bounded-exhaustive enumeration of the numeric range against exact integer arithmetic', level=EX,
     note='Complete integer range and lattice.' + REF)

prop('N01', 'Scene description state is scoped by begin and end',
     "Each scene-description call is rejected before initialisation and accepted after it, and initialising twice is rejected. "
     "Transformation calls compose onto the current transformation in call order, an attribute or transform block restores on its end exactly the state in force at its begin whatever was called inside, unmatched ends change nothing, and a named coordinate system recalls the transformation current when it was named, unaffected by later calls. "
     "Parameters of each kind are handed out in the order they were added.",
     ['histories', 'programs'],
     "every sequence of scene-description calls up to a depth from an alphabet of transformation, block, naming and lifecycle calls",
     "No test imports the scene-description interface.",
     ['pytracer/interface/api.py', 'pytracer/interface/__init__.py', 'pytracer/interface/option.py'],
     [('state stack', 'pytracer/interface/api.py')],
     technique='explicit-state breadth-first search of the call protocol against a persistent-stack reference model', level=MC,
     note='All call sequences up to the depth bound, compared state by state with a persistent-stack model.' + REF)

BY_ID = {p['id']: p for p in P}
