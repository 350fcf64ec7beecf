#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (the property texts).  Run: python3 tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=""):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(qtext.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=list(files), state=list(state),
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))
A = "pytracer/aggregate/"; 

prop("P01", "Ray queries return the nearest surface, whichever aggregate holds the scene",
 """For any list of primitives in any order, a ray query through the bounding-volume hierarchy (either split
 method, any leaf size) or the exhaustive list aggregate reports a hit exactly when some primitive is hit inside
 the ray's [mint, maxt] interval. The hit reported is the primitive with the smallest hit distance, the ray's far
 limit is shortened to that distance, and on a miss the ray is left as it was. The occlusion query answers true
 exactly when the full query on the same ray would report a hit, and never alters the ray.""",
 ["inputs", "configurations"], "all primitive lists (positions, overlaps, order), split methods, leaf sizes, rays (any direction signs, zero components, any interval)",
 "no existing test intersects anything through an aggregate; correctness depends on every combination of layout, order, traversal direction and interval",
 [A+"aggregate.py", A+"accelerator/bvh.py", A+"primitive.py", "pytracer/scene/scene.py"],
 [("front-to-back traversal with interval shrinking", A+"accelerator/bvh.py BVH.intersect"), ("any-hit traversal", A+"accelerator/bvh.py BVH.intersect_p"), ("exhaustive scan", A+"aggregate.py SimpleAggregate.intersect")],
 ["return value of intersect/intersect_p", "ray.maxt", "Intersection fields"])

prop("P02", "Building an accelerator always terminates and loses no primitive",
 """For any collection of primitives - overlapping, coincident, collinear, flat, a single one or none, of any size,
 with either split method and any leaf limit - building the hierarchy terminates without error. Every fully refined
 primitive is offered to a ray that crosses its bounds exactly once per traversal, and no primitive is offered that was not
 given. The aggregate's world bound is exactly the union of the bounds of all its primitives. Building and querying leave the given list, the primitives and their own bounds as they were.""",
 ["inputs", "configurations"], "all layouts, sizes, split methods and leaf limits",
 "no test builds a hierarchy from more than nothing; degenerate partitions and leaf decisions depend on the layout",
 [A+"accelerator/bvh.py", A+"aggregate.py"],
 [("recursive partition (midpoint / bucketed SAH)", A+"accelerator/bvh.py BVH._recursive_build"), ("flattening to preorder array", A+"accelerator/bvh.py BVH._flatten_tree")],
 ["calls received by the primitives", "world_bound()", "exceptions"])

prop("P03", "The uniform grid finds the same surfaces as testing every primitive",
 """For any primitive list with a bounded extent (none at all and single points included) and any ray, the uniform-grid aggregate reports a
 hit exactly when testing each primitive directly would, at the smallest hit distance, with the same primitive.
 The occlusion query agrees. Primitives spanning several cells, rays starting inside or outside the grid, and
 rays parallel to an axis make no difference. The given list, the primitives and their bounds are left as they were.""",
 ["inputs"], "all primitive lists, rays and ray intervals",
 "no test constructs a grid",
 [A+"aggregate.py"],
 [("3D-DDA walk", A+"aggregate.py GridAccel.intersect"), ("primitive-to-voxel insertion", A+"aggregate.py GridAccel.__init__")],
 ["return value", "ray.maxt", "Intersection fields"])

prop("P04", "Lazy refinement in the grid is complete and safe under concurrent queries",
 """When primitives that cannot be intersected directly are placed in the uniform grid, every ray query intersects only
 primitives that declare themselves intersectable. Concurrent queries from several threads, under any
 interleaving, terminate and give the same answers as the same queries run one after another. A failed refinement
 of one primitive never blocks later queries forever.""",
 ["schedules", "fault_sequences"], "all interleavings of concurrent ray queries over a shared grid, with refinement raising at any point",
 "tests are sequential and never touch the grid",
 [A+"aggregate.py"],
 [("per-cell refinement under a grid-wide lock", A+"aggregate.py Voxel.intersect / Voxel.intersect_p")],
 ["answers of queries", "termination", "calls received by primitives"])

prop("P05", "Refinement expands a primitive into exactly its intersectable leaves",
 """Fully refining any primitive yields each intersectable descendant exactly once and nothing else; a primitive that
 can already be intersected yields itself. Primitives produced by refinement carry the material and area
 light of the primitive they came from, and every primitive and every shape ever created has an identifier of its own. A
 ray hit reports the identifiers, transforms, material and light of the very primitive that was hit.""",
 ["inputs", "histories"], "all refinement trees and creation histories",
 "no test refines a primitive",
 [A+"primitive.py", A+"intersection.py", "pytracer/shape/__init__.py", "pytracer/shape/triangle.py"],
 [("work-list refinement", A+"primitive.py Primitive.full_refine"), ("attribute propagation", A+"primitive.py GeometricPrimitive.refine / intersect")],
 ["list returned by full refinement", "primitive/shape ids", "Intersection fields"])

prop("P06", "An instanced primitive behaves like its geometry moved in the world",
 """For any wrapped primitive and any (possibly animated) transform, a ray query on the instance at a given time
 hits exactly when the wrapped primitive, moved by the interpolated transform, is hit in world space, at the same ray parameter. The
 returned hit geometry and transforms are expressed in world space, the occlusion query agrees, and the instance's
 world bound contains the moved geometry at every time.""",
 ["inputs", "histories"], "all wrapped primitives, transforms, times and rays",
 "no test instantiates an instanced primitive",
 [A+"primitive.py", "pytracer/transform/__init__.py"],
 [("ray into instance space, hit back to world", A+"primitive.py TransformedPrimitive.intersect")],
 ["return value", "ray.maxt", "Intersection fields", "world_bound()"])

prop("P07", "Every camera sample contributes to exactly the pixels its filter covers",
 """For any resolution, crop window, filter width and sequence of samples, each sample adds weight and weighted colour to
 exactly those in-window pixels whose centres lie within the filter's half-widths of the sample position, using the
 filter's value at that offset (tabulated to 1/16 of the half-width), and to no other pixel.
 The accumulated pixel value depends only on the set of samples, not their order. A splat adds
 its colour to the one pixel containing it and to none if that pixel is outside the window.""",
 ["inputs", "histories", "configurations"], "all films, filters, sample positions and orders, including positions outside the image and on pixel boundaries",
 "no test adds a sample to a film",
 ["pytracer/film/film.py", "pytracer/filter/filter.py"],
 [("filter-extent accumulation", "pytracer/film/film.py ImageFilm.add_sample"), ("splatting", "pytracer/film/film.py ImageFilm.splat")],
 ["pixel accumulators", "pixels of the written image"])

prop("P08", "Crop windows tile the image and the sample range covers every filter footprint",
 """For any resolution and crop fractions the window contains exactly the pixels between the rounded-up scaled fractions (at
 least one per axis), each axis scaled by its own resolution, so films cropped with adjacent fractions partition the image. The
 range over which samples are requested contains every position whose filter footprint touches a pixel of the window,
 and is the window itself enlarged by no more than the filter half-width rounded out.""",
 ["inputs", "configurations"], "all resolutions, crop fractions and filter widths",
 "tests never build a film",
 ["pytracer/film/film.py"],
 [("crop arithmetic", "pytracer/film/film.py ImageFilm.__init__"), ("sample extent", "pytracer/film/film.py ImageFilm.get_sample_extent")],
 ["get_pixel_extent()", "get_sample_extent()"])

prop("P09", "Concurrent film updates lose nothing",
 """When several rendering threads add samples and splats to one film at the same time, under any interleaving,
 the accumulated pixels equal those of some sequential order, provided threads whose filter is at most one pixel wide work on disjoint
 pixels. No interleaving, and no failing update, leaves a pixel locked for ever.""",
 ["schedules", "fault_sequences"], "all interleavings of concurrent add and splat operations",
 "tests are single-threaded and never touch a film",
 ["pytracer/film/film.py"],
 [("per-pixel lock", "pytracer/film/film.py ImageFilm.add_sample / splat")],
 ["pixel accumulators", "lock state"])

prop("P10", "The written image is the weighted reconstruction, placed at the right pixels",
 """The image written for a film has one pixel per window pixel, whose colour is the accumulated weighted colour divided by the
 accumulated weight, clamped below at zero, plus the scaled splat colour, scaled per channel so that its maximum is 255.
 Writing a cropped film replaces exactly the pixels of its window in an existing full-size image and changes no
 other. Writing twice gives the same result, and writing does not disturb accumulation.""",
 ["inputs", "histories", "configurations"], "all films, crop windows and accumulation histories",
 "tests never write an image",
 ["pytracer/film/film.py", "pytracer/utility/imageio.py"],
 [("reconstruction", "pytracer/film/film.py ImageFilm.write_image"), ("file update", "pytracer/utility/imageio.py write_image")],
 ["file contents", "returned array"])

prop("P11", "The stratified sampler visits every pixel once, with one sample per stratum",
 """For any pixel range and strata counts the sampler yields each pixel of the range exactly once, in scanline order, then
 reports exhaustion for ever. Each pixel's image, lens and time samples have exactly one sample in each stratum
 (at its centre without jitter), image samples lie in their pixel and times between shutter
 open and close. Every integrator-requested pattern has the requested number of samples, one per Latin-hypercube stratum in each dimension. Values are uniform within their
 stratum, and the strata of different patterns (image, lens, time, the order of a one-dimensional pattern, the two axes of a two-dimensional one) are paired by chance.""",
 ["inputs", "histories", "configurations"], "all pixel ranges, strata counts, jitter settings, shutter times, request lists and random streams",
 "no test draws samples",
 ["pytracer/sampler/sampler/stratified.py", "pytracer/sampler/utility.py"],
 [("scanline state machine", "pytracer/sampler/sampler/stratified.py StratifiedSampler.generate")],
 ["generated samples", "return value of generate"])

prop("P12", "Sub-samplers partition the pixel range",
 """For any pixel range and any number of tiles, the windows handed to the sub-samplers are integer pixel rectangles inside
 the range, pairwise disjoint, and together cover every pixel exactly once; a tile that
 would be empty yields no sub-sampler. Rendering all tiles therefore visits exactly the pixels that rendering the whole would, with the same
 strata, jitter and shutter settings.""",
 ["inputs", "configurations"], "all pixel ranges and tile counts",
 "no test asks for a sub-sampler",
 ["pytracer/sampler/sampler/__init__.py", "pytracer/sampler/sampler/stratified.py"],
 [("tile arithmetic", "pytracer/sampler/sampler/__init__.py Sampler.compute_subwindow")],
 ["sub-sampler pixel ranges", "visited pixels"])

prop("P13", "The render loop adds each generated sample exactly once, with finite radiance",
 """Rendering runs integrator preprocessing before the first sample, evaluates every generated sample with a camera ray for
 that sample's position, lens and time, adds it to the film exactly once, and writes the image exactly once after the last sample. A
 radiance that is NaN, infinite or negative is recorded as black and does not stop the render; any
 other radiance is recorded scaled by the camera ray's weight. A rejected sample batch contributes nothing. A task asked to show visibility instead
 records white where the ray hits something and black elsewhere.""",
 ["inputs", "histories", "fault_sequences"], "all sample streams, ray weights, hit patterns and radiance values including non-finite ones",
 "the only rendering test is excluded because it does not finish",
 ["pytracer/renderer/renderer.py", "pytracer/sampler/sample.py", "pytracer/camera/camera.py"],
 [("sample loop", "pytracer/renderer/renderer.py SamplerRendererTask.__call__"), ("radiance dispatch", "pytracer/renderer/renderer.py SamplerRenderer.li")],
 ["sequence of calls on film, camera, integrators"])

prop("P14", "Transforms compose, invert and act consistently on every kind of operand",
 """For any composition of translations, scalings, rotations, look-at and orthographic transforms, the stored
 inverse undoes the transform, composition applies right to left, and points, vectors and normals transform by
 their own laws (normals stay perpendicular to transformed tangents). A transformed ray traces the images of the original ray's points at the same
 parameters and keeps interval, depth and time, a transformed ray differential carries its auxiliary rays along,
 and the box computed for a transformed box contains the image of every point of the original. A transform swaps handedness exactly when its linear part has negative determinant. What a transform returns is independent of its operand and of the transform, neither of which it changes.""",
 ["inputs", "programs"], "all finite compositions of elementary transforms and all operands",
 "tests sample a few random operands per operation and never check boxes under rotation or auxiliary rays",
 ["pytracer/transform/__init__.py", "pytracer/geometry/__init__.py"],
 [("matrix and inverse pairs", "pytracer/transform/__init__.py Transform")],
 ["results of applying transforms"])

prop("P15", "Animated transforms interpolate between their end poses and bound all motion",
 """An animated transform equals its start pose for every time at or before the start and its end pose at or
 after the end; in between translation and (possibly mirroring) scale interpolate linearly and rotation along the shorter arc at uniform speed. Applying it to a
 point, vector or ray at a time equals applying the interpolated transform, and the motion bound of a box contains the box moved
 at every time in range (to within the motion between two of its 128 sampled times). Without actual motion it behaves exactly like the static transform. Results are independent of the operands, which stay as they were.""",
 ["inputs"], "all pose pairs, time ranges, times and operands",
 "tests touch decomposition on a few random matrices only",
 ["pytracer/transform/__init__.py", "pytracer/transform/quat.py"],
 [("decompose / slerp / recompose", "pytracer/transform/__init__.py AnimatedTransform.interpolate")],
 ["interpolated matrices", "motion_bounds"])

prop("P16", "Bounding boxes form a lattice and the slab test is exact",
 """Box union is the least box containing its operands, is commutative, associative and idempotent with the empty box as
 identity, and containment, overlap, equality, surface area, volume, longest axis, expansion, interpolation and bounding sphere
 agree with the set of points denoted. A ray reports hitting a box exactly when its segment meets the box (merely grazing the boundary may count either way), and then returns the entry and exit parameters clipped to the ray's
 interval, for every direction including axis-parallel ones.""",
 ["inputs"], "all boxes (empty, degenerate, infinite), points and rays",
 "tests check a handful of random boxes; they never combine empty, touching or degenerate ones",
 ["pytracer/geometry/__init__.py"],
 [("box algebra", "pytracer/geometry/__init__.py BBox")],
 ["results of BBox methods"])

prop("P17", "Quadric and disk intersections report the first surface point in the interval",
 """For every sphere, cylinder and disk (including partial ones), any placement and any ray, the query reports a hit
 exactly when the ray meets the shape at a parameter in [mint, maxt], at the smallest such parameter; the hit point
 lies on the shape and satisfies its z, radius and sweep limits, and its surface parameters and derivatives
 describe that point. The ray is not modified, the occlusion query agrees, and every surface point lies
 inside the shape's object and world bounds.""",
 ["inputs", "configurations"], "all shape parameters, placements and rays",
 "no existing test intersects a quadric",
 ["pytracer/shape/sphere.py", "pytracer/shape/cylinder.py", "pytracer/shape/disk.py"],
 [("root selection and clipping", "pytracer/shape/sphere.py Sphere.intersect")],
 ["returned hit, distance, differential geometry"])

prop("P18", "Triangles are hit where rays cross them, and meshes refine to their faces",
 """A ray hits a triangle exactly when it crosses the triangle's plane inside it at a parameter in [mint, maxt]; a ray that slides along the plane hits nothing, and nothing hits a triangle without extent; the reported
 point, barycentric texture coordinates and partial derivatives are those of that point, and the occlusion query agrees. A mesh refines into exactly one triangle per face
 with that face's vertices and texture coordinates, keeps the number of faces and vertices, and its bounds contain all its vertices; given per-vertex normals, the shading normal interpolates them. Malformed input is rejected. A surface
 point cut away by the alpha texture is neither hit nor occludes.""",
 ["inputs"], "all vertex sets, index lists, per-vertex attributes and rays",
 "no existing test intersects or refines a mesh",
 ["pytracer/shape/triangle.py"],
 [("ray-triangle solve", "pytracer/shape/triangle.py Triangle.intersect"), ("mesh assembly", "pytracer/shape/triangle.py create_triangle_mesh / TriangleMesh.refine")],
 ["returned hit, distance, differential geometry", "refined triangles"])

prop("P19", "Loop subdivision yields the right topology and limit positions",
 """Subdividing any closed or open manifold control mesh n times terminates and yields 4^n times as many faces, one vertex per original
 vertex and edge per level, consistently oriented, with every edge shared by the same two neighbouring faces (or one on the boundary).
 New and updated vertex positions follow Loop's interior and boundary weights, and final positions are pushed to the limit
 surface with normals perpendicular to its tangents. Refining leaves the control mesh as it was: it can be refined again, with the same result.""",
 ["inputs", "programs"], "all control meshes and subdivision levels",
 "no existing test subdivides a mesh",
 ["pytracer/shape/loopsubdiv.py"],
 [("per-level split and relink", "pytracer/shape/loopsubdiv.py LoopSubdiv.refine")],
 ["refined mesh vertices, indices and normals"])

prop("P20", "Composite surface scattering obeys its component flags",
 """For any set of scattering components and any requested mask, evaluating a surface sums exactly the matching components on the
 correct side (reflection when both directions are on the same side of the geometric surface, transmission otherwise), the density is the average over matching components,
 and sampling picks each matching component with equal probability and returns a value and density consistent with those sums (only
 the chosen component's for a specular one). With no matching component the result is black with zero density. A surface's reflectance
 estimate adds those of its matching components, each asked in the surface's own frame. None of this changes the surface, the directions or
 the mask it was given.""",
 ["inputs", "configurations"], "all component sets, masks, direction pairs and random numbers",
 "tests only import the reflection package",
 ["pytracer/reflection/bsdf.py", "pytracer/reflection/utility.py", "pytracer/reflection/bdf/bdf.py"],
 [("flag matching", "pytracer/reflection/utility.py BDFType"), ("component selection", "pytracer/reflection/bsdf.py BSDF.sample_f")],
 ["values of f, pdf, sample_f, n_components"])

prop("P21", "Shading coordinates form an orthonormal frame that round-trips",
 """For any surface orientation, converting a direction to the local shading frame and back returns the same direction, lengths and
 angles are preserved, the shading normal maps to the local z axis, and the local cosine of a direction equals its dot product with the normal; the local sines,
 cosines and tangents of a direction's angles belong together, at the poles too. Any helper frame built from a single unit vector is
 orthonormal and contains that vector.""",
 ["inputs"], "all normals, tangents and directions",
 "tests only import the reflection package",
 ["pytracer/reflection/bsdf.py", "pytracer/geometry/utility.py"],
 [("basis change", "pytracer/reflection/bsdf.py BSDF.w2l / l2w")],
 ["converted vectors"])

prop("P22", "Elementary scattering models respect reflection, refraction and Fresnel laws",
 """Specular reflection leaves along the mirrored direction and specular transmission along Snell's direction, entering and
 leaving alike, with total internal reflection returning nothing. Fresnel reflectances lie in [0,1], agree with the Fresnel equations for dielectrics and
 conductors, and reflected plus transmitted energy never exceeds the incident. Diffuse and
 rough models follow their documented formulas, are reciprocal for directions on the same side, finite and non-negative for all, and have no density across the surface; sampled directions, values and densities agree,
 and reflectance estimates average exactly value times cosine over density of the samples given. Every model declares the kind of
 scattering it is.""",
 ["inputs"], "all incident directions, indices of refraction, colours and roughnesses",
 "tests only import the reflection package",
 ["pytracer/reflection/fresnel.py", "pytracer/reflection/bdf/bdf.py", "pytracer/reflection/bdf/orennayar.py", "pytracer/reflection/bdf/torrance.py", "pytracer/reflection/bdf/fresnelblend.py"],
 [("Fresnel equations", "pytracer/reflection/fresnel.py"), ("mirror and Snell directions", "pytracer/reflection/bdf/bdf.py")],
 ["values of f, pdf, sample_f"])

prop("P23", "Lights illuminate with the right direction, falloff and visibility segment",
 """Sampling a light from any point returns the unit direction towards it, its radiance (that no caller can change) with inverse-square falloff for positional lights
 and the light's own angular or textured profile, none outside its cone or behind a one-sided emitter, and
 a visibility query spanning exactly the open segment between the point and the light (unbounded for a distant one). Point-like lights report no density for
 directions they were not sampled in, area lights report the density they sample with, which integrates to one over directions for the environment and vanishes in no direction light arrives from, rays sent out by a
 light start on it (or outside the scene) with the radiance and density of its profile, only the environment is seen by escaping rays, and total emitted power matches the light's profile.""",
 ["inputs", "configurations"], "all light kinds, placements, receiving points and random numbers",
 "tests never create a light",
 ["pytracer/light/light.py", "pytracer/light/utility.py"],
 [("light sampling", "pytracer/light/light.py sample_l"), ("visibility segment", "pytracer/light/utility.py VisibilityTester")],
 ["returned radiance, direction, density", "ray used for visibility"])

prop("P24", "Shadow rays are blocked exactly by occluders strictly inside the segment",
 """A visibility query between two points answers unoccluded exactly when no surface is met strictly between them, beyond the
 requested clearance at each end; a query towards a direction is blocked exactly by any surface further than the clearance. The
 query keeps the time of the original ray, never changes the scene's answer to later queries, and
 repeated queries agree. The transmittance it asks for is that of the very segment it tests.""",
 ["inputs", "histories"], "all point pairs, clearances, times and occluder placements",
 "tests never cast a shadow ray",
 ["pytracer/light/utility.py", "pytracer/scene/scene.py"],
 [("segment construction", "pytracer/light/utility.py VisibilityTester.set_segment / set_ray")],
 ["unoccluded()", "ray handed to the scene"])

prop("P25", "Direct lighting combines light and surface sampling without double counting",
 """For any lights and surface, the direct-lighting estimate is the sum over lights of the light-sampled contribution, weighted by the power
 heuristic unless the light is a point-like one, plus for non-point-like lights the surface-sampled contribution with the complementary
 weight; each part is attenuated by the media on its way; occluded, black and zero-density samples contribute nothing. Sampling one light at random divides by its selection probability, and the sample dimensions consumed are exactly those
 requested beforehand.""",
 ["inputs", "configurations", "histories"], "all light sets, sample counts, strategies, occlusion patterns and densities",
 "tests only import the integrators",
 ["pytracer/integrator/utility.py", "pytracer/integrator/surface/direct.py"],
 [("MIS estimator", "pytracer/integrator/utility.py estimate_direct"), ("strategies", "pytracer/integrator/surface/direct.py")],
 ["returned radiance", "calls on lights and surface"])

prop("P26", "Integrators bound recursion and count emission once",
 """Path, Whitted and direct-lighting integration terminate on every scene, never following more than the configured number of bounces. Emission
 from a surface is added only when it is seen directly or through a specular bounce, the background only where a counted ray escapes, and every
 vertex's contribution is multiplied by exactly the product of scattering, cosine, inverse density and transmittance along the path to it
 (and the inverse survival probability where it may be cut at random). Recursive rays carry the parent's depth plus one, its time, and auxiliary rays
 mirrored or refracted like the neighbouring rays; requested samples serve one purpose at one bounce, and the
 first three points of a path use theirs.""",
 ["inputs", "histories", "configurations"], "all scattering histories, depths and scenes",
 "tests only import the integrators",
 ["pytracer/integrator/surface/path.py", "pytracer/integrator/surface/whitted.py", "pytracer/integrator/surface/direct.py", "pytracer/integrator/utility.py"],
 [("path loop", "pytracer/integrator/surface/path.py PathIntegrator.li"), ("specular recursion", "pytracer/integrator/utility.py specular_reflect / specular_transmit")],
 ["returned radiance", "rays traced"])

prop("P27", "Piecewise-constant sampling inverts its distribution",
 """For any non-negative function table with positive sum, sampling a 1D distribution at u returns the position whose
 cumulative probability is u, never inside a zero-probability bin, with density proportional to the table; discrete
 sampling returns each bin with its probability. The two-dimensional distribution samples rows by their marginal and columns by the row's conditional, and
 reports the same density when queried at the sampled point. A table of zeros has density zero everywhere, and later changes to the table given make no difference.""",
 ["inputs"], "all tables (with zero entries) and random numbers in [0,1)",
 "tests only import the package",
 ["pytracer/montecarlo/distribution.py"],
 [("CDF inversion", "pytracer/montecarlo/distribution.py")],
 ["sampled positions and densities"])

prop("P28", "Geometric sampling routines stay in their domain and match their densities",
 """For any random numbers in [0,1) the disk, triangle, hemisphere, sphere, cone and phase-function samplers return a point of their domain, the map preserves
 area proportions (the measure of the image of any strip matches its probability), and the companion density function equals the reciprocal measure. Power and balance
 heuristics of complementary strategies sum to one.""",
 ["inputs"], "all random number pairs, cone angles, asymmetries",
 "tests only import the package",
 ["pytracer/montecarlo/utility.py"],
 [("warps", "pytracer/montecarlo/utility.py")],
 ["sampled points and densities"])

prop("P29", "Cameras map film positions to world rays consistently",
 """For any camera placement, screen window, field of view and film, the ray for a film position starts at the camera (or lens / film plane) position and its
 projection lands on that film position, with weight one, unit direction, from distance zero without
 far limit, and the sample's own time (which samplers already place inside the shutter), for which a moving camera takes its pose. Auxiliary rays correspond to the positions one pixel to the right and one pixel
 down. With a lens, all rays of one film position meet on the focal plane.""",
 ["inputs", "configurations"], "all placements, fields of view, film sizes, sample positions, lens samples and times",
 "tests only import the cameras",
 ["pytracer/camera/camera.py", "pytracer/camera/projective.py", "pytracer/camera/environment.py"],
 [("raster to camera", "pytracer/camera/projective.py")],
 ["generated rays"])

prop("P30", "Reconstruction filters are symmetric, bounded in support and correctly shaped",
 """Every filter is even in each axis and separable; the triangle falls linearly to zero at its half-width, the Gaussian is its
 exponential shifted to reach zero at its half-width, the Mitchell filter is the continuous piecewise cubic with parameters B and C and vanishes at its half-width,
 the windowed sinc is one at the centre and zero at integer cycles; beyond the half-width the triangle, the Gaussian and the sinc stay at zero. Evaluating on arrays gives the element-wise values and leaves the input unchanged.""",
 ["inputs", "configurations"], "all filter parameters and offsets",
 "no test evaluates a filter",
 ["pytracer/filter/filter.py"],
 [("filter kernels", "pytracer/filter/filter.py")],
 ["filter values"])

prop("P31", "Spectra form a vector space and colour conversions are mutually inverse",
 """Component-wise arithmetic on spectra is exact, never mutates its operands except for in-place operators, and mixed operations reject incompatible types. Conversion from RGB to
 XYZ and back is the identity, luminance is linear, clamping stays within the given limits, black and NaN detection look at every component, and
 resampling a piecewise-linear spectrum preserves averages over any window, without changing its input.""",
 ["inputs"], "all coefficient vectors, scalars and sample tables",
 "tests check fixed random vectors, not sampling of irregular or unsorted tables",
 ["pytracer/spectral/spectrum.py"],
 [("coefficient algebra", "pytracer/spectral/spectrum.py CoefficientSpectrum"), ("resampling", "pytracer/spectral/spectrum.py")],
 ["spectrum values"])

prop("P32", "Participating media accumulate consistently along rays",
 """Inside a region's extent (in its own frame) the scattering coefficients are those configured, outside they are zero; attenuation is
 absorption plus scattering. The interval a ray overlaps a region is that of its transformed extent, optical thickness is attenuation integrated over it, and an aggregate of regions
 sums coefficients and thickness, averages the phase functions weighted by scattering, and spans the hull of the members' intervals. Phase functions have their
 declared shape, bounds hold the placed extent, and querying never changes the medium.""",
 ["inputs", "configurations"], "all regions, placements, points and rays",
 "no test creates a volume",
 ["pytracer/volume/volume.py", "pytracer/volume/utility.py"],
 [("region queries", "pytracer/volume/volume.py")],
 ["returned coefficients, intervals, thickness"])

prop("P33", "Textures and mip maps wrap, filter and combine as declared",
 """Texel lookups outside the image repeat, clamp or return black according to the wrap mode; the base level is the image, resampled to powers of
 two (colours never below zero); each further level halves the resolution and averages the level below; lookups interpolate bilinearly between texels and linearly between levels. Constant, scale, mix, bilinear and checkerboard textures compute their declared combination of
 inputs at the mapped coordinates, and the mappings return coordinates and derivatives of the declared map. Noise is the declared gradient noise, and fractal textures sum
 its octaves up to the filter width, fading the last one in.""",
 ["inputs", "configurations"], "all images, sizes, wrap modes, coordinates, widths and input textures",
 "tests only import the package",
 ["pytracer/texture/utility.py", "pytracer/texture/texture/__init__.py", "pytracer/texture/texturemap/__init__.py"],
 [("pyramid construction", "pytracer/texture/utility.py MIPMap"), ("texture combinators", "pytracer/texture/texture/__init__.py")],
 ["texture values"])

prop("P34", "Materials expose exactly the scattering components their parameters call for",
 """A material's surface description at any point contains exactly the components its (clamped) parameter textures make non-black
 there, with the declared colours and indices, and never more than one description's worth however often it is queried; a mixture contains the
 components of both parts scaled by complementary amounts. Bump mapping leaves the geometric normal's side unchanged and a flat
 bump map leaves the shading geometry unchanged; otherwise the shading frame is that of the displaced surface. Rays entering a transparent or coated material from outside meet its declared
 index, leaving ones the reciprocal. Measured materials answer from their own measurements, however often, in whatever order and from whichever folder they are loaded.""",
 ["inputs", "configurations"], "all materials, parameter values and surface points",
 "tests only import the package",
 ["pytracer/material/material.py"],
 [("component assembly", "pytracer/material/material.py get_bsdf")],
 ["components of the returned description"])

prop("P35", "The scene-description state machine scopes transforms and attributes",
 """Scene-description calls before initialisation are rejected; initialising twice is rejected and cleaning up allows it again. Begin/end blocks nest to any depth and restore exactly the transforms and attributes in force at the
 matching begin, whatever was changed inside; named coordinate systems recall the transforms at the time they were named. Ends that do not match the innermost open block are
 reported and change nothing. Transforms compose in the order given, a camera is placed by the inverse of the transforms in force (after looking from one point at another, it sits at
 that point), each option keeps the last value given, and a parameter list hands back each type's values in the order they were put in. A new initialisation starts afresh.""",
 ["programs", "histories"], "all sequences of scene-description calls",
 "the module cannot even be imported by the tests",
 ["pytracer/interface/api.py", "pytracer/interface/option.py", "pytracer/interface/parameter.py", "pytracer/interface/__init__.py"],
 [("API state and stacks", "pytracer/interface/api.py")],
 ["module state after each call"])

prop("P36", "Rays keep their interval, depth, time and auxiliary rays through every operation",
 """Evaluating a ray at t gives origin plus t times direction; copying gives an independent ray with the same interval, depth, time and auxiliary rays, spawning
 from a parent increases depth by one and inherits time, and scaling auxiliary rays moves their origins and directions proportionally about the main ray. Points and vectors obey
 affine typing: differences of points are vectors, sums of point and vector are points, and meaningless subtractions from a point are rejected.""",
 ["inputs", "programs"], "all rays and chains of ray operations",
 "tests check single operations on random rays",
 ["pytracer/geometry/__init__.py"],
 [("ray types", "pytracer/geometry/__init__.py Ray / RayDifferential")],
 ["ray fields"])

prop("P37", "Sampling a shape by area yields points on it with the stated density",
 """Under any rigid placement, points sampled on a sphere, disk, cylinder, triangle or shape set lie on the surface (inside its limits) with the unit normal the shape reports there
 (flipped by reverse orientation), sampling is uniform over area, and the reported area and area density are the surface's. The density seen from a reference point is squared
 distance over cosine times area for directions that hit the shape and zero otherwise (for a whole sphere seen from outside: uniform over its cone of directions), sampling towards the
 shape from a point follows exactly that density, and a shape set picks members and weights densities by area.""",
 ["inputs", "configurations"], "all shapes, placements, random numbers and reference points",
 "no test samples a shape",
 ["pytracer/shape/__init__.py", "pytracer/shape/sphere.py", "pytracer/shape/disk.py", "pytracer/shape/cylinder.py", "pytracer/shape/triangle.py", "pytracer/light/utility.py"],
 [("area sampling", "pytracer/shape/*.py sample"), ("solid-angle density", "pytracer/shape/__init__.py Shape.pdf_p")],
 ["sampled points, normals, densities"])

prop("P38", "Surface differentials and local frames are exact",
 """The screen-space derivatives of a hit are where the auxiliary rays meet its tangent plane, expressed as position and surface-parameter offsets (zero without auxiliary rays),
 and copying a hit keeps all of it independently. A frame built around a unit vector is orthonormal, spherical angles and directions convert back and forth with or without a
 frame, and facing a normal towards a vector flips it exactly when it points away, leaving the operands alone.""",
 ["inputs"], "all tangent planes, auxiliary rays, unit vectors and angles",
 "tests sample a few vectors and never compute a differential",
 ["pytracer/geometry/diffgeom.py", "pytracer/geometry/utility.py"],
 [("compute_differential", "pytracer/geometry/diffgeom.py DifferentialGeometry.compute_differential"), ("coordinate_system", "pytracer/geometry/utility.py")],
 ["dpdx, dudx, ... of a hit", "returned vectors and angles"])

prop("P39", "A rendered sample carries exactly the light the scene transports to it",
 """Rendering a scene end to end - shapes and cut-out meshes, placements, moving instances, any aggregate, materials, lights (meshes of them too), any camera, sampler, integrator, film - gives each camera sample the radiance of
 recursive ray tracing: the emission and the direct light (unoccluded delta lights weighted by the material's scattering and the cosine) of the nearest surface along the sample's ray, plus
 the mirrored and refracted radiance up to the recursion limit, plus what lights shine on escaping rays. This holds for the Whitted, direct-lighting and path integrators wherever the scene
 determines the radiance, with radiance finite and every sample of the frame rendered exactly once.""",
 ["inputs", "programs"], "all scenes whose radiance is determined by geometry, materials and delta lights (and emitters seen directly or through specular surfaces)",
 "the only test renders one scene and looks at nothing but that it ends",
 ["pytracer/renderer/renderer.py", "pytracer/integrator", "pytracer/aggregate", "pytracer/reflection", "pytracer/camera"],
 [("render loop and radiance dispatch", "pytracer/renderer/renderer.py SamplerRendererTask.__call__, SamplerRenderer.li"), ("integrators", "pytracer/integrator/surface/*.py, pytracer/integrator/utility.py"),
  ("hit to scattering", "pytracer/aggregate/intersection.py get_bsdf, le")],
 ["recursion depth", "ray interval", "film samples"])

prop("P40", "Numeric helpers compute what they are named after for every argument",
 """Comparing with one, with another number or with black holds exactly within the library's tolerance (of every component); conversion to integers rounds down, up or to the nearest
 and gives integers; interpolation of numbers and arrays is linear; powers of two are recognised, and the next and the nearest one found, for every positive integer; clipping keeps
 the type, stays inside the limits and leaves values inside them alone.""",
 ["inputs"], "all finite numbers, positive integers, arrays and spectra",
 "no test calls them",
 ["pytracer/utility/utility.py"],
 [("helpers", "pytracer/utility/utility.py")],
 ["returned values and their types"])

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    main()
