REF = "runtime monitor: reference-model oracle on random workloads"
NOTE = "Every observed event of the run agreed with an independently written reference; reach is what the workloads sampled (counts in evidence). Trusts the reference model, float tolerances, and the Go toolchain. "

p("C01", "Ray-object intersection finds the nearest surface of every primitive",
  "For every ray and every primitive solid or surface (sphere, cylinders in all directions, capped cylinder, box, triangle, quadrilateral, rectangle, disk, mesh, parametric surface), intersecting reports the smallest strictly positive distance at which the ray meets the surface, and reports no hit if there is none. This holds for rays starting outside, inside or on the bounding surface, pointing away, axis-aligned, or not normalised, and for small, large and far-away objects. Rays that graze an edge or are tangent within round-off are not covered.",
  ["inputs"], "all primitives, sizes, positions and rays (start, direction) away from round-off-level grazing",
  "Existing tests compare a few golden images taken from one camera per primitive with loose tolerance; they never start rays inside, behind or on the objects, use few sizes, and only see what reaches a pixel.",
  ["tracer/objects/quadric.go", "tracer/objects/box.go", "tracer/objects/mesh.go", "tracer/objects/boundingbox.go", "tracer/objects/bounded.go"],
  [("quadric root selection and height clipping", "tracer/objects/quadric.go"), ("slab test", "tracer/objects/boundingbox.go"), ("ray-triangle test", "tracer/objects/mesh.go")],
  REF, NOTE + "Tangent and edge rays within a margin are not judged.", ["objects.Interface.Intersect"])

p("C02", "Hit records carry the right normal, local coordinates and material",
  "Whenever a ray hits an object, the reported normal is perpendicular to the surface at the hit point, the local coordinates are the ones the shape documents (position or u,v), and the material is the one given for that surface. Replacing the material or remapping local coordinates changes exactly that attribute and nothing else.",
  ["inputs"], "all primitives, rays and attribute wrappers",
  "Golden images use debug materials from one viewpoint with tolerance; sign, scale and inner-surface mistakes on untested sides or transforms stay invisible.",
  ["tracer/objects/quadric.go", "tracer/objects/box.go", "tracer/objects/mesh.go", "tracer/objects/remap.go"],
  [("normal and local coordinate computation per shape", "tracer/objects/")],
  REF, NOTE, ["objects.Interface.Intersect"])

p("C03", "Inside and Bounds agree with the geometry",
  "For every object (primitive, combination, transformed or tree), a point is reported inside exactly when it lies in the solid (surfaces have no inside), and the reported bounding box contains every surface point and inside point of the object.",
  ["inputs"], "all objects and points away from the surface by a margin",
  "No test queries Inside directly or checks bounds of combined, rotated or scaled objects; wrong bounds only show as missing parts from particular views.",
  ["tracer/objects/csg.go", "tracer/objects/transformed.go", "tracer/objects/tree.go", "tracer/objects/quadric.go", "tracer/objects/boundingbox.go"],
  [("Inside / Bounds methods", "tracer/objects/"), ("hull of transformed corners", "tracer/objects/transformed.go")],
  REF, NOTE, ["objects.Interface.Inside", "objects.Interface.Bounds"])

p("C04", "Constructive solid geometry behaves like set operations on solids",
  "The surface of And, Or, Not, Difference, Restrict, Remove and Hollow combinations, nested to any moderate depth, is exactly the surface of the corresponding set combination: along every ray the nearest hit of the combined object is the first place where the ray crosses that surface, with the material and normal of the operand that contributes it. Operands that coincide within round-off, and rays crossing more than about fifty surfaces, are not covered.",
  ["inputs", "programs"], "all nested combinations of solids (depth up to 4) and all rays",
  "Tests render four or five fixed combinations from one camera; nested combinations, inner surfaces, rays starting inside and overlapping operands are not exercised.",
  ["tracer/objects/csg.go"],
  [("march along the ray until a hit lies on the combined surface", "tracer/objects/csg.go")],
  REF, NOTE + "Rays with nearly coincident surfaces are not judged.", ["objects.Interface.Intersect"])

p("C05", "A Tree finds exactly what a linear scan over its objects finds",
  "Wrapping any set of bounded objects in a Tree (any number, sizes, overlap, nesting, order) does not change what any ray hits: the nearest hit, its normal, local coordinates and material equal those of the nearest hit over the individual objects, and a miss stays a miss. The same holds for meshes loaded or generated with any number of faces.",
  ["inputs", "configurations"], "all object sets of 1 to hundreds of objects, all rays",
  "The only tree tests render one mesh each; leaf/inner boundary counts, single precision bounds far from the origin, overlapping children and misses inside the box are not reached.",
  ["tracer/objects/tree.go", "tracer/objects/mesh.go"],
  [("bounding volume hierarchy traversal and pruning", "tracer/objects/tree.go"), ("outward rounded single precision boxes", "tracer/objects/tree.go")],
  "runtime monitor: differential oracle, tree versus linear scan and reference model", NOTE, ["objects.Tree(...).Intersect"])

p("C06", "Transforming an object moves its geometry exactly",
  "Intersecting a transformed object (any composition of translation, rotation and uniform scale, nested any number of times, for bounded and unbounded objects) gives the transformed image of the hit that the original gives for the inversely transformed ray, with distance measured along the caller's ray and the normal rotated accordingly. The original object is unaffected and may be shared by many transformed instances.",
  ["inputs", "programs"], "all objects, similarity transforms, compositions and rays",
  "Tests show a few fixed transforms of one shape from one view; compositions, scales, non-unit directions, unbounded objects and shared instances are not covered.",
  ["tracer/objects/transformed.go", "geom/affinetransform.go", "api/object.go"],
  [("inverse transform of the ray, forward transform of the hit", "tracer/objects/transformed.go")],
  REF, NOTE, ["objects.Transformed(...).Intersect"])

p("C07", "Intersecting is pure and safe to do from many goroutines",
  "Objects are immutable once built: intersecting leaves ray and object unchanged, asking the same question again gives the same answer, and any number of goroutines may intersect the same (possibly nested, shared) object concurrently without data races and with the same answers as sequentially.",
  ["schedules", "histories"], "all objects, call histories and goroutine interleavings",
  "Tests run without race detector and compare images with tolerance, so torn or cached hits for single rays stay invisible.",
  ["tracer/objects/csg.go", "tracer/objects/transformed.go", "tracer/objects/tree.go", "tracer/objects/bounded.go"],
  [("no mutable state in objects, rays copied before transformation", "tracer/objects/")],
  "Go race detector plus sequential-answer oracle over concurrent histories", "No race report and no answer changed over the observed interleavings; the race detector only sees the executions run.", ["objects.Interface.Intersect"])

p("C08", "Every pixel is sampled exactly once per pass and averaged correctly",
  "Sampling an image of any size for n passes, in any split over calls, evaluates every pixel exactly n times and nothing outside the image, and all of that is finished when the call returns. The image is for each pixel the mean of exactly its own samples, the standard deviation is the unbiased one of those samples, and images handed out earlier do not change when sampling goes on. Parallel workers do not share a context and do not race.",
  ["schedules", "inputs", "histories"], "all image sizes, pass counts, call histories and worker interleavings",
  "Tests sample a few square multiples of the tile size and compare with tolerance; a pixel sampled twice, skipped on an odd-sized border or averaged over the wrong count under a rare interleaving is not seen.",
  ["tracer/sampler.go", "tracer/ctx.go", "imagef/image.go"],
  [("division in tiles, one goroutine and context per CPU", "tracer/sampler.go")],
  "Go race detector plus exactly-once and conservation monitor on every sample", "Every sample taken is logged per pixel and compared with counts, mean and standard deviation. Interleavings are those that occurred (injected delays). ", ["tracer.Sampler", "tracer.Uniform"])

p("C09", "Rendering is deterministic",
  "Rendering the same scene with the same size, number of passes and settings gives exactly the same image, bit for bit, whatever the number of processors, the scheduling, how the passes are split over calls, and whatever was rendered before or is being rendered at the same time. (Recursion deeper than two and lens aperture are seeded by the clock and not covered.)",
  ["schedules", "histories", "configurations"], "all scenes without clock-seeded sampling, all schedules and pass splits",
  "Golden tests allow a tolerance, run one schedule and one pass split; dependence on which worker renders which tile stays below it.",
  ["tracer/sampler.go", "tracer/ctx.go", "tracer/sequence/sequence.go"],
  [("random sequences initialised per pixel and pass", "tracer/ctx.go")],
  "Go race detector plus bitwise differential oracle over schedules and pass splits", "Images of the same scene under different GOMAXPROCS, delays, concurrent renders and pass splits are compared bit by bit. ", ["tracer.Sampler.Image"])

p("C10", "Pixels map to the right part of the sensor, anti-aliasing stays inside",
  "Pixel (x, y) of a w by h image looks through the sensor position documented for its centre (u to the right from 0 to 1, v upwards, square pixels), and indices outside the image are refused. With anti-aliasing the samples of a pixel are spread evenly and without bias over its own footprint, differ from pass to pass and from pixel to pixel; without it all samples are at the centre. (For images wider than high the footprint is only judged up to the documented pixel size.)",
  ["inputs"], "all image sizes, pixels and passes",
  "Golden images have tolerance for sub-pixel shifts and mostly one aspect ratio; nothing checks the distribution of sub-pixel samples.",
  ["tracer/sampler.go", "tracer/ctx.go"],
  [("IndexToCam", "tracer/sampler.go"), ("quasi-random sub-pixel offsets", "tracer/sampler.go")],
  REF, NOTE, ["tracer.IndexToCam", "tracer.Sampler"])

p("C11", "Cameras cast exactly the rays their projection documents",
  "For every sensor position, the projective, isometric and environment cameras cast the documented ray of unit direction: horizontal field of view, viewport size and 360x180 degree range are as given, u is to the right and v is up. With an aperture, rays start spread evenly over the lens of the given radius and all meet in the point at the focus distance; translation and yaw/pitch/roll move the camera as documented, in any combination, without affecting the original camera. Impossible parameters are refused.",
  ["inputs", "programs"], "all camera types, parameters, transformations and sensor positions",
  "Tests render one or two pictures per camera without aperture and without rotation (the rotation test is skipped).",
  ["tracer/cameras/projective.go", "tracer/cameras/isometric.go", "tracer/cameras/environmentmap.go", "tracer/cameras/withtransform.go"],
  [("RayFrom", "tracer/cameras/")],
  REF, NOTE, ["tracer.Camera.RayFrom"])

p("C12", "Recursion is bounded and leaves context and rays intact",
  "While any scene is being rendered, no surface is shaded deeper than the recursion depth asked for, light gathered along a chain of mirrors is exactly that of the allowed number of bounces, and after every sample the recursion depth is back at the start. Shading gets unit normals and positive finite distances, never changes the ray or hit of its caller, and a ray handed out to one user is not handed out to another until it is given back, once.",
  ["inputs", "programs", "histories"], "all scenes, material combinations and recursion depths",
  "No test counts depth or watches the ray pool; leaks and double recycling only show as rare wrong pixels in deep scenes.",
  ["tracer/scene.go", "tracer/ctx.go", "tracer/materials/reflective.go", "tracer/materials/refractive.go", "tracer/materials/matte.go", "tracer/media/fog.go"],
  [("CurrentRecursionDepth counter", "tracer/scene.go"), ("ray pool", "tracer/ctx.go")],
  "runtime monitor: online checker of a depth and ray-ownership specification around every material", "Spying materials watch depth, ray identity and ray contents on every shading call of the sampled scenes. ", ["tracer.Material.Shade", "tracer.Ctx"])

p("C13", "A ray sees the nearest surface of the scene",
  "What a scene shows along a ray is the nearest surface in front of the ray start among all objects and light sources, shaded by that surface's material with the right distance, unit normal and local coordinates; a backdrop is only seen where nothing else is hit, and an empty direction is black. The order in which objects and lights are listed makes no difference.",
  ["inputs", "programs"], "all scenes of objects, groups, lights and backdrops, and all rays",
  "Tests use a handful of fixed scenes and views.",
  ["tracer/scene.go", "tracer/objects/backdrop.go", "tracer/objects/group.go"],
  [("frontmost intersection", "tracer/scene.go")],
  REF, NOTE, ["tracer.Scene.LightField"])

p("C14", "Light is blocked or filtered by exactly what lies in between",
  "The light that reaches a point from another point is zero if any opaque surface lies strictly between them, and otherwise the original light multiplied by the colour of every transparent surface it crosses, once per crossing; objects beyond either end, light sources themselves and empty space do not matter. Asking does not change the shadow ray, and looking through transparent surfaces multiplies what is behind them in the same way.",
  ["inputs", "programs"], "all scenes of opaque and transparent objects, all pairs of points",
  "Shadow tests use one light and one opaque occluder; several layers, surfaces beyond the light, and opaque surfaces behind transparent ones are not tested.",
  ["tracer/scene.go", "tracer/materials/transparent.go"],
  [("Occlude", "tracer/scene.go"), ("Transparent.Filter", "tracer/materials/transparent.go")],
  REF, NOTE, ["tracer.Scene.Occlude", "tracer.Scene.LightField"])

p("C15", "Matte surfaces under point lights follow Lambert and inverse-square",
  "A matte surface lit by point lights shows, per colour channel, the sum over all unobstructed lights on the viewer's side of reflectivity x power / (4 pi distance squared) x cosine of incidence, independent of the viewing angle, of the order of lights and of which way the surface normal points. Lights behind the surface contribute nothing.",
  ["inputs", "programs"], "all surfaces, light positions, powers, occluders and views",
  "Golden images encode the current result for a few scenes with tolerance; no test compares with the physical law.",
  ["tracer/materials/matte.go", "tracer/lights/pointlight.go", "tracer/scene.go"],
  [("direct illumination loop", "tracer/materials/matte.go")],
  REF, NOTE, ["tracer.Scene.LightField", "tracer.Light.Sample"])

p("C16", "Rectangle, disk and sun lights deliver the documented light",
  "Samples of a rectangle or disk light are spread evenly over its surface and carry the intensity a surface element of the given brightness sends to the target (none above the light), so that a matte surface receives on average the analytic direct illumination with correct soft shadows; transformed instances behave as the moved light. A light looks bright from below and black from above, exactly within its outline. A sun light shines from the documented direction and angular size and gives a perpendicular white matte surface the given brightness.",
  ["inputs"], "all light sizes, positions, transforms, targets, occluders and sun parameters",
  "Tests are golden images for one light of each kind, tuned to the present output.",
  ["tracer/lights/planar.go", "tracer/lights/transformed.go", "tracer/sequence/mappings.go"],
  [("samplePos and Sample", "tracer/lights/planar.go")],
  "runtime monitor: statistical and quadrature oracle over sampled light paths", NOTE + "Averages are judged with tolerances derived from the observed sample variance. ", ["tracer.Light.Sample", "tracer.Scene.LightField"])

p("C17", "Indirect light is the cosine-weighted light of the surroundings",
  "On average a matte surface adds reflectivity times the cosine-weighted mean of what its surroundings look like: a convex body under a uniform sky shows exactly reflectivity times sky, a closed glowing enclosure shows the geometric series up to the recursion depth, a directional sky gives its cosine-weighted integral. Light sources are counted exactly once: the directly sampled light is not seen again by the scattered rays.",
  ["inputs", "configurations"], "all matte scenes, surroundings and recursion depths",
  "Tests are golden images with tolerance; energy balance is never checked, so a factor or a double count of a few percent passes.",
  ["tracer/materials/matte.go", "tracer/sequence/mappings.go", "tracer/scene.go"],
  [("one cosine-distributed secondary ray", "tracer/materials/matte.go"), ("black stand-ins for light sources", "tracer/scene.go")],
  "runtime monitor: energy-conservation and quadrature oracle over sampled light paths", NOTE, ["tracer.Scene.LightField"])

p("C18", "Reflection and refraction obey the laws of optics",
  "Reflective surfaces show what the mirrored ray sees times their colour; refractive surfaces show the Fresnel-weighted sum of the reflected and the refracted (Snell) view, with total internal reflection beyond the critical angle, correctly from both sides and for any pair of indices; a Fresnel-coated material shows the Fresnel-weighted sum of the mirror view and its base. Reflected and transmitted weights add up to one.",
  ["inputs", "programs"], "all surfaces, refractive indices, incidence angles and nestings of such materials",
  "Tests are a few golden images of spheres.",
  ["tracer/materials/reflective.go", "tracer/materials/refractive.go"],
  [("reflect, Snell's law and Fresnel equations", "tracer/materials/")],
  REF, NOTE, ["tracer.Scene.LightField"])

p("C19", "Material combinators combine exactly what their parts show",
  "A blend shows the weighted sum of its parts, a blend map mixes two materials by the texture's value at the local coordinates, shiny is matte plus reflection with weights adding up to one, a two-sided material shows one part on each side, and flat shows its texture as is, for any nesting of materials. Each part sees the same ray, hit and recursion depth as if it were alone.",
  ["inputs", "programs"], "all nested material expressions on all objects and rays",
  "Tests render one instance of each with a fixed view.",
  ["tracer/materials/blend.go", "tracer/materials/twosided.go", "tracer/materials/flat.go"],
  [("Shade of the combinators", "tracer/materials/")],
  REF, NOTE, ["tracer.Scene.LightField"])

p("C20", "Fog attenuates and scatters according to the path inside the layer",
  "Exponential fog shows transmission x surface + (1-transmission) x ambient, where transmission is exp(-density x length of the viewing ray below the fog height up to the surface), for rays from above, below, through and along the layer, and only for camera rays. Fog with point lights additionally scatters, on average, the light of the first numLight lights integrated along that path with the same attenuation and with shadows. Several layers apply one after the other.",
  ["inputs"], "all fog parameters, camera positions, ray directions, surfaces and lights",
  "Each medium has one golden image from one camera.",
  ["tracer/media/expfog.go", "tracer/media/fog.go"],
  [("half-space and interval intersection", "tracer/media/expfog.go"), ("exponential sampling along the path", "tracer/media/fog.go")],
  "runtime monitor: analytic and quadrature oracle over sampled rays", NOTE, ["tracer.Scene.LightField"])

p("C21", "Vectors, matrices and affine transforms compute what they document",
  "Translation, scaling, rotation (right-handed, about any axis and origin), yaw/pitch/roll, base mapping and their compositions in both orders map every point and direction as documented; the inverse undoes them; using or composing a transform never changes its operands. Vector and matrix operations (products, norms, cross product, inverse) equal their mathematical definition, and exact quarter turns are exact.",
  ["inputs", "programs"], "all transforms, compositions, points and directions",
  "Tests check a few fixed axis-aligned examples.",
  ["geom/affinetransform.go", "geom/matrix.go", "geom/vec.go", "util/util.go"],
  [("affine algebra", "geom/affinetransform.go")],
  REF, NOTE, ["geom"])

p("C22", "Sampling sequences are uniform, and their mappings keep that",
  "The low-discrepancy sequence is the documented radical-inverse sequence; per pixel and pass the generated numbers lie in the unit square, depend only on pixel and pass, cover the square evenly over the passes and are uncorrelated between sensor and bounce dimensions. The disk mapping covers the unit disk uniformly and the hemisphere mapping yields unit vectors on the right side with cosine-weighted density, for every normal.",
  ["inputs", "histories"], "all bases, indices, pixels, passes and normals",
  "Tests print or plot a few values; uniformity and correlation are not asserted.",
  ["tracer/sequence/halton.go", "tracer/sequence/sequence.go", "tracer/sequence/mappings.go", "tracer/ctx.go"],
  [("Halton with per-pixel shifts", "tracer/sequence/sequence.go"), ("Malley's method", "tracer/sequence/mappings.go")],
  "runtime monitor: statistical uniformity and exact radical-inverse oracle", NOTE, ["sequence", "tracer.Ctx.Generate2"])

p("C23", "Textures return the documented colour everywhere",
  "Image textures return bilinear interpolation between the pixels (periodic outside the unit square, row 0 at the bottom v=0) or the nearest pixel within the unit square; checkers and grid pick the right sub-texture at every point, also for negative coordinates, and evaluate it there; panning and scaling shift and stretch the pattern as documented, nested in any way; the fisheye map projects directions onto the documented circle. Height maps return the stored value without colour-space conversion. Undefined (NaN, infinite) coordinates never crash a texture.",
  ["inputs"], "all textures, nestings and coordinates",
  "A few golden images, coordinates within one period.",
  ["texture/interpolation.go", "texture/assets.go", "texture/texture2d.go", "texture/uvmapper.go", "texture/func2d.go", "api/texture.go"],
  [("interpolation and wrap-around", "texture/interpolation.go")],
  REF, NOTE, ["texture.Texture.At"])

p("C24", "Colours survive encoding, decoding and image storage",
  "Encoded output (16 bit colour, PPM text and binary) is well-formed, has one correct sRGB value per channel in the right place, is always within range and never decreasing with brightness, and write errors are reported; loading an image gives linear colours (inverse sRGB, or as is on request), flipped so that row 0 is the bottom, and damaged or missing files are reported. Colour arithmetic and image copies are exact and independent. (The encoding curve's offset 0.05 instead of 0.055 is a known finding.)",
  ["inputs", "fault_sequences"], "all images, colours including out of range ones, and write or read failures at any byte",
  "Tests encode a fixed image; write failures, extreme values and truncated files are not tested.",
  ["imagef/colorf/color.go", "imagef/ppm/ppm.go", "imagef/load.go", "imagef/image.go"],
  [("sRGB curves", "imagef/colorf/color.go"), ("PPM encoders", "imagef/ppm/ppm.go"), ("decoder", "imagef/load.go")],
  "runtime monitor: reference codec oracle with injected I/O faults", NOTE, ["ppm.EncodeAscii16", "ppm.Encode48BE", "imagef.Load", "colorf.Color"])

p("C25", "Bloom adds exactly the documented glow and leaves the input alone",
  "Gaussian, Airy and star bloom return a new image equal to the input plus, for each pixel, the part above the threshold times the amplitude, spread by the kernel of the given radius normalised to total one, cut off at the image border; radius zero means no change, the effects apply one after the other, and the input image is not modified. The result is finite and symmetric. AddConvolution does this for any given kernel (odd size, any values, scaled to total one), adding to the given destination and without changing the kernel.",
  ["inputs"], "all images, radii, amplitudes and thresholds",
  "Tests apply one setting to one image and compare with a golden file.",
  ["imagef/post/convolution.go", "imagef/post/params.go"],
  [("normalised kernel convolution", "imagef/post/convolution.go")],
  REF, NOTE, ["post.Params.ApplyTo"])

p("C26", "PLY and OBJ meshes are read completely and correctly, or refused",
  "Every well-formed PLY (ascii) or OBJ file, with any supported formatting (comments, blank lines, extra properties, polygons, texture and normal indices, materials, missing last newline), yields exactly its vertices and triangulated faces with the right materials, moved by the given transforms, and rays hit the mesh accordingly. Truncated or malformed files, indices out of range, read errors and missing files are reported as errors, never silently accepted as a partial mesh and never a crash.",
  ["inputs", "fault_sequences"], "all mesh files, formattings, truncations, corruptions and read failures",
  "Tests read two fixed well-formed files.",
  ["tracer/objects/ply/parser.go", "tracer/objects/obj/parser.go", "tracer/objects/mesh.go"],
  [("line parsers", "tracer/objects/ply/parser.go"), ("face triangulation", "tracer/objects/mesh.go")],
  "runtime monitor: round-trip oracle on generated files with injected corruption and read faults", NOTE, ["ply.Parse", "obj.Parse", "objects.PlyFile", "objects.ObjFile"])

p("C27", "The render server answers every history of requests correctly",
  "For every sequence and overlap of preview, bake and cancel requests, a preview is answered with the correct image of exactly the requested view; a bake is answered with the mean of all samples baked for that view since it was first asked for or last canceled, or refused only while an other bake is going on. Canceled, malformed or impossible requests are answered with an error (a canceled bake possibly with its valid image), never with a wrong image, never crash the server, and never block or disturb later requests.",
  ["schedules", "histories", "fault_sequences"], "all histories and interleavings of requests from several clients",
  "There is no test of the server.",
  ["api/server.go", "api/view.go", "tracer/sampler.go"],
  [("bakery state protected by a mutex", "api/server.go"), ("cancel channel", "api/server.go")],
  "Go race detector plus offline checker over recorded request histories of a loopback server", "Histories are generated per seed, every reply is compared with the reference renderer or the logged samples; interleavings are those that occurred. ", ["HTTP /preview, /bake, /cancel"])

p("C28", "A Spec and a View show the scene they describe",
  "Defaults fill in exactly what was left open (size keeps 16:9, one pass, recursion one, camera at height one looking at -z) and are idempotent; applying a view sets size, moves and turns the camera and switches debug modes without modifying the original spec. Debug views show the right thing: normals (white towards, red away from the viewer), see-through normals, and isometric projection along the chosen axis, with the backdrop black and without fog.",
  ["inputs", "configurations"], "all specs, views and debug settings",
  "No test covers Spec, View or the debug views.",
  ["api/spec.go", "api/view.go", "tracer/test/materials.go"],
  [("InitDefaults", "api/spec.go"), ("View.ApplyTo", "api/view.go")],
  REF, NOTE, ["api.Spec", "api.View.ApplyTo"])

p("C29", "Render and Animate write the right pictures, or fail loudly",
  "A program calling Render leaves an image file of the requested name, format and size plus a .ppm of it, showing the scene upright with sRGB encoding after at least the requested number of passes (and not more than a few times as many), anti-aliased when that is more than one, and after post-processing, completely replacing an older file of that name; Animate leaves one picture per frame, numbered in order, plus the last one. If an output can not be written (missing directory, full disk, unknown format) the program exits with a failure status instead of reporting success.",
  ["configurations", "fault_sequences"], "all sizes, formats, pass counts, post-processing settings, frame counts and output faults",
  "No test runs the program entry points.",
  ["api/render.go", "api/animate.go", "imagef/ppm/ppm.go"],
  [("renderLocal / renderFrame / savef / savePPM", "api/")],
  "runtime monitor: real processes with injected output faults, files compared with a reference picture", NOTE, ["output files and exit status"], level="fault_enumeration")

p("C30", "Height-field surfaces are intersected where the field says",
  "A ray that crosses a smooth height field exactly once from above hits it at that place (within the documented step resolution), with the normal of the scaled field and the (u,v) of the field as local coordinates; a ray that misses the box or stays above the field misses. Inside and bounds agree with the field and box size. A field that leaves the range [0,1] where it is evaluated is reported by a panic, not rendered wrongly.",
  ["inputs"], "all smooth height fields, sizes and rays with a single downward crossing",
  "One golden image of one surface.",
  ["tracer/objects/isosurface.go"],
  [("stepping and bisection", "tracer/objects/isosurface.go")],
  REF, NOTE, ["objects.IsoSurface"])

p("C31", "The api package offers the same objects, materials and transforms",
  "Every constructor and method of the user-facing package does what its counterpart below does: chains of Translate, Rotate, Scale, WithCenter, Restrict, And, Or, AndNot, Remove, Remap and WithMaterial on api objects give the object described by the chain, centre and extreme points are those of the bounds, and named colours, lights, materials, media and cameras are the documented ones. The receiver of a method is never changed.",
  ["inputs", "programs"], "all method chains over all api objects",
  "No test exercises the api object methods.",
  ["api/object.go", "api/api.go", "api/camera.go", "api/texture.go"],
  [("wrappers", "api/object.go")],
  REF, NOTE, ["api.Object"])

p("C32", "No scene renders to NaN, infinite or negative brightness",
  "For any scene built from the library with sensible (finite, non-negative) parameters, nested in any way and seen by any camera, every sample is finite and non-negative in every colour channel, rendering does not panic, and the recursion depth is back at the start afterwards. This includes cameras inside or on objects and overlapping objects.",
  ["inputs", "programs"], "all scenes, cameras and sensor positions",
  "Tests render a fixed set of well-behaved scenes; NaN samples are silently dropped by the sampler.",
  ["tracer/scene.go", "tracer/materials/", "tracer/objects/", "tracer/lights/", "tracer/media/"],
  [("finite arithmetic throughout", "tracer/")],
  "runtime monitor: invariant assertions on every sample of random hostile scenes", "Only the sampled scenes are covered. ", ["tracer.Scene.ImageFunc"])

p("C33", "bruteray-watch always runs the latest version of the program",
  "After every change of the watched source file, bruteray-watch ends the running instance, rebuilds and starts exactly one new instance of the program in the file's directory with -o <name>.jpg and the given arguments. A version that does not compile, or that can not be started, is reported and leaves the watcher alive, so that the next good version runs; without arguments it exits with an error.",
  ["histories", "fault_sequences"], "all sequences of good, bad and long-running versions of the watched file",
  "The command has no tests.",
  ["cmd/bruteray-watch/main.go"],
  [("poll, kill, build, start loop", "cmd/bruteray-watch/main.go")],
  "runtime monitor: offline checker over the start/stop log of real processes", "Each generated version logs its own starts; histories of edits are random per seed. ", ["processes started by bruteray-watch"])

p("C34", "The interactive viewer follows the controls and shows the latest view",
  "For every sequence of keys, drags, wheel steps, resizes, pauses and repaints, the viewer asks the server only for views that the user made, in order, moving the camera 0.05 per step in the direction it looks and turning 0.005 rad per pixel with the pitch limited to straight up and down. It ends up showing the last view at full window size: a 1/8 preview while dragging or paused (no refinement is requested then), and otherwise refinements of increasing resolution, the first at no more than a quarter of the window's and the last one full size and anti-aliased. It never shows an older picture after a newer one, a picture for a canceled view, or anything but what the server sent; a refinement in progress is canceled when the view changes or the window closes, at most one is outstanding, failures of the server do not stop it, buffers are not used after release, there are no data races, and closing the window ends the program with status 0.",
  ["histories", "schedules", "fault_sequences"], "all sequences of user input, server delays, errors and stalls",
  "The viewer has no tests.",
  ["cmd/bruteray-view/main.go", "api/view.go"],
  [("event loop, baking and cancellation", "cmd/bruteray-view/main.go")],
  "runtime monitor: race detector plus trace checker over requests, cancellations and shown pictures against a model of the view", "The window system is a recording stand-in, the server a scripted one with identifiable pictures; one history per seed and case. ", ["HTTP requests of the viewer", "published windows"])
