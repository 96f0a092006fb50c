"""Writes properties.jsonl (kept as code so that ids, titles and statements stay in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=mech, where=', '.join(files))], observe_at=[observe], hook_needed='cfg pt_verif: re-exports of private modules')))

p('C01', 'kd-tree answers the same as testing every shape',
  'For every list of shapes and every ray, the kd-tree container reports a nearest hit at exactly the distance of the nearest hit found by testing every shape one by one, and reports no hit when no shape is hit. Its any-hit query answers yes exactly when some shape is hit within the ray\'s extent.',
  ['inputs', 'configurations'], 'all shape layouts (more shapes than fit in one leaf, overlapping, touching, coplanar, empty regions) and all rays with non-zero direction, including rays parallel to axes and rays with a limited extent',
  'No test builds a kd-tree; the answer depends on build heuristics, split planes and traversal order for every layout and ray.',
  ['src/container_kdtree.rs', 'src/container_simple.rs', 'src/bbox.rs'], 'kd-tree build (split selection, classification) and stack-based traversal with interval clipping',
  'Container::intersect / intersect_p results versus a linear scan')
p('C02', 'Box culling never discards a hittable point',
  'Whenever some point of a bounding box lies on a ray within its extent, the box test reports an overlap whose parameter interval contains that point; whenever it reports no overlap, no point of the box lies on the ray. This holds also for rays parallel to box faces, starting inside the box, and for flat boxes.',
  ['inputs'], 'all boxes (also flat ones), all origins, all non-zero directions (also with zero components), all extents',
  'No test intersects a ray with a box.', ['src/bbox.rs'], 'slab test', 'BBox3f::intersect return value')
p('C03', 'Sphere hits are real, nearest, and complete',
  'A ray reported to hit a sphere meets its surface at the reported distance, which is positive and within the extent, and is the first such crossing; a ray reported to miss has no crossing within its extent. The reported point lies on the sphere on the ray, with the outward unit normal and the direction back along the ray.',
  ['inputs'], 'all centres, radii, origins (inside, outside), non-zero directions and extents',
  'The tests check a handful of axis-aligned rays.', ['src/shape_sphere.rs', 'src/common.rs'], 'quadratic solution and interaction construction', 'Sphere::intersect')
p('C04', 'Triangle hits are real and complete',
  'A ray reported to hit a triangle meets the plane of the triangle inside the triangle at the reported positive distance within the extent; the reported point is that point and the normals are unit and perpendicular to the triangle. A ray crossing the interior of a non-degenerate triangle clearly within its extent is never missed.',
  ['inputs'], 'all vertex positions, orientations, optional vertex normals, origins, non-zero directions, extents',
  'There is no test of triangle intersection at all.', ['src/shape_triangle.rs'], 'watertight ray-triangle test in ray space', 'Triangle::intersect')
p('C05', 'Bounding boxes enclose what they bound',
  'The bounding box of a shape contains every point where a ray can be reported to hit it and every point sampled on it; the union of boxes contains both, and transforming a box yields a box containing the transformed image of every point of it.',
  ['inputs'], 'all shapes, hits, sample points, boxes, points and affine transforms',
  'No test relates boxes to hits, samples or transforms.', ['src/bbox.rs', 'src/shape_sphere.rs', 'src/shape_triangle.rs', 'src/transform.rs'], 'bbox construction, union and transformation', 'Shape::bbox, BBox3f::union, Transform::apply on boxes')
p('C06', 'Shadow queries agree with nearest-hit queries',
  'For every shape, emitter and container, and every ray, the yes/no query answers yes exactly when the nearest-hit query on the same ray returns a hit.',
  ['inputs'], 'all rays and all spheres, triangles, area lights, simple containers and kd-trees over them',
  'The two queries are separate code paths; no test compares them.', ['src/shape_sphere.rs', 'src/shape_triangle.rs', 'src/container_simple.rs', 'src/container_kdtree.rs', 'src/light.rs'], 'intersect_p versus intersect', 'boolean versus Option result')
p('C07', 'Secondary rays start on the correct side of the surface',
  'A ray spawned from a hit in a direction starts on that direction\'s side of the tangent plane, moved off the surface by no more than the position error bound allows; a shadow ray to another point runs from offset origin to offset target and stops short of the target.',
  ['inputs'], 'all hit points, error bounds, normals and directions or target points',
  'No test spawns rays.', ['src/interaction.rs', 'src/common.rs'], 'offset of ray origins along the normal by the error bound', 'Interaction::spawn_ray / spawn_ray_to')
p('C08', 'Transforms invert, compose and preserve geometry',
  'Every transform followed by its inverse is the identity on points, vectors and normals; applying a product of transforms equals applying them in sequence; transformed normals stay perpendicular to transformed tangents; a transformed ray passes through the transformed points at the same parameters.',
  ['inputs'], 'all translations, scales, rotations, look-at and perspective transforms, general invertible matrices and products of them, all points, vectors, normals and rays',
  'Tests check three fixed matrices.', ['src/transform.rs', 'src/matrix.rs'], 'matrix pair (m, m_inv) maintained by every constructor; Gauss-Jordan inversion', 'Transform::apply, inverse, *')
p('C09', 'Camera rays pass through the pixel they are asked for',
  'For every field of view, resolution, screen window and camera placement, the ray generated for a film position starts at the camera position, has unit length direction and passes through the point of the image plane that corresponds to this film position, so that film x grows to the right of the screen window and film y grows downwards.',
  ['inputs', 'configurations'], 'all film positions, resolutions, screen windows, fields of view, clip planes and rigid camera placements',
  'No test generates camera rays.', ['src/camera.rs', 'src/transform.rs'], 'raster to screen to camera to world mapping', 'PerspectiveCamera::generate_ray')
p('C10', 'Tiles cover every sample position exactly once',
  'For every film resolution and filter radius, the tiles handed to the render threads are non-empty, at most 16 pixels wide and high, disjoint, and together are exactly the sampling area; the sampling area is the smallest one containing every position whose filter footprint touches a pixel, and iterating over a tile visits each pixel once.',
  ['inputs', 'configurations'], 'all resolutions and filter radii', 'Tests iterate over two small boxes only.', ['src/film.rs', 'src/bbox.rs'], 'FilmTileIter, sample_bbox, BBox2iIter', 'Film::iter, Film::sample_bbox, BBox2i::iter')
p('C11', 'Film accumulates each sample with its filter weight',
  'Adding a sample adds its colour times the filter weight of the offset to each film pixel within the filter radius of the sample, the same weight to that pixel\'s weight sum, and nothing to any other pixel; merging a tile adds exactly what the tile accumulated, so the final film does not depend on how samples were grouped into tiles or in which order tiles were merged.',
  ['inputs', 'histories'], 'all sample positions and colours, radii, resolutions, tiles and merge orders', 'No test adds a sample.', ['src/film.rs', 'src/filter.rs'], 'FilmTile::add_sample, Film::merge_film_tile, tile footprint', 'film pixel contents')
p('C12', 'Image file encodes each pixel correctly',
  'The written image is a plain PPM with the film\'s width and height and one line of three integers in 0..255 per pixel, in row order; each integer is the rounded value of 255 times the gamma-encoded average colour, is monotone in the colour, and is 0 for black and 255 for full intensity or more. Rendering into an existing file leaves nothing of the old contents behind.',
  ['inputs', 'histories'], 'all accumulated colours and weights, all resolutions', 'No test writes an image.', ['src/film.rs', 'src/integrator.rs'], 'write_image_ppm quantisation, output file handling', 'bytes written')
p('C13', 'Sampler values lie in [0,1) and never crash',
  'Every value produced by the samplers, for every image area, pixel, sample count and dimension in use, lies in [0,1), and producing it never panics. It depends only on the pixel, the sample number and the dimension, not on the pixels visited earlier.',
  ['inputs', 'histories'], 'all sampling areas, pixels (also negative), sample numbers and dimensions', 'Tests evaluate a few radical inverses.', ['src/sampler_halton.rs', 'src/sampler_random.rs'], 'radical inverse digit reversal in fixed-width integers; per-pixel index offset', 'HaltonSampler::get_1d/get_2d')
p('C14', 'Each pixel gets its own samples, the requested number of times',
  'Starting a pixel and looping until the sampler reports completion yields exactly the requested number of samples; the film positions produced are inside that pixel, and two different pixels of one 128 by 128 pixel period never share an element of the sample sequence.',
  ['inputs', 'configurations'], 'all resolutions, pixels and samples per pixel', 'No test drives the sampler through a pixel.', ['src/sampler_halton.rs', 'src/sampler.rs'], 'Chinese-remainder pixel offset and stride', 'sampler protocol and first two dimensions')
p('C15', 'Sampled scattering agrees with evaluation',
  'When a scattering function samples a direction, the value and density it returns equal those returned by evaluating value and density for that pair of directions, the direction lies on the side that kind of scattering allows, and the density is non-negative. With several lobes the density is the average of the lobe densities and the value the sum of the applicable lobes.',
  ['inputs', 'configurations'], 'all outgoing directions, random numbers in [0,1), lobe combinations, roughness and refraction indices', 'The tests only check flag tests and one frame.', ['src/reflection.rs', 'src/bxdf_lambertian_reflection.rs', 'src/bxdf_microfacet_reflection.rs', 'src/bxdf_microfacet_transmission.rs'], 'sample_f versus f and pdf', 'BxDF and BSDF return values')
p('C16', 'Reported densities are the true sampling densities',
  'The density reported for a sampled direction, microfacet normal or light point equals the density with which uniformly distributed random numbers actually produce it.',
  ['inputs'], 'all random numbers in [0,1)^2, outgoing directions, roughness values and light shapes', 'Densities are statistical facts that no test checks.', ['src/sampling.rs', 'src/microfacet.rs', 'src/bxdf_*.rs', 'src/shape.rs', 'src/shape_triangle.rs', 'src/light.rs'], 'inverse of the Jacobian determinant of the sampling map', 'pdf times Jacobian equals one')
p('C17', 'Scattering is reciprocal and non-negative',
  'Reflection values do not change when incoming and outgoing directions are swapped, and values are finite and never negative; the visible-fraction terms lie between 0 and 1.',
  ['inputs'], 'all pairs of directions off the surface plane, roughness values and non-negative colours', 'No test evaluates a scattering function.', ['src/bxdf_microfacet_reflection.rs', 'src/bxdf_lambertian_reflection.rs', 'src/microfacet.rs'], 'symmetric evaluation', 'BxDF::f')
p('C18', 'Fresnel reflectance is a valid fraction',
  'The reflected fraction lies between 0 and 1 for every angle and material; for dielectrics it is 1 beyond the critical angle, is the same from either side along a refracted path, and equals the closed formula at normal incidence.',
  ['inputs'], 'all cosines (also slightly outside [-1,1]), refraction indices and absorption values', 'No test evaluates Fresnel terms.', ['src/fresnel.rs'], 'fr_dielectric, fr_conductor', 'Fresnel::evaluate')
p('C19', 'Mirror and refraction directions obey the laws of optics',
  'Reflected directions have the same angle to the normal on the other side in the plane of incidence; refracted directions are unit length, satisfy Snell\'s law, lie on the other side, and exist exactly when there is no total internal reflection. Specular scattering values weigh these with the Fresnel fraction and the radiance scaling of the two media.',
  ['inputs'], 'all unit directions and normals and refraction index ratios', 'No test reflects or refracts.', ['src/reflection.rs', 'src/bxdf_specular_reflection.rs', 'src/bxdf_specular_transmission.rs'], 'reflect, refract, specular lobes', 'returned directions and values')
p('C20', 'Path tracing counts each light contribution once',
  'The radiance returned for a camera ray is the emission seen directly or through specular bounces, plus, at each hit, throughput times the direct-lighting estimate; emission is never counted both by a bounce and by direct lighting at the previous hit. Random termination divides the throughput by the survival probability, and a path never exceeds the bounce limit.',
  ['inputs', 'histories'], 'all sequences of hits, scattering samples, emissions and random numbers up to the bounce bound', 'No test runs the integrator.', ['src/integrator.rs'], 'li loop with specular flag, throughput and termination', 'radiance of a path over scripted scene and lobes')
p('C21', 'Direct lighting combines its two strategies without bias',
  'For one light, the estimate is the light-sampled term plus the scattering-sampled term, each weighted by the power heuristic of the two densities, whose weights for the same direction add up to one; occluded, black or zero-density samples contribute nothing, delta lights are sampled from the light only, and only the chosen light\'s own emission counts.',
  ['inputs'], 'all densities, values, visibilities and light kinds', 'No test estimates direct lighting.', ['src/integrator.rs', 'src/sampling.rs'], 'estimate_direct, power_heuristic', 'returned radiance for scripted light and lobe')
p('C22', 'Lights emit the right radiance in the right direction',
  'A directional light sends its radiance from its direction with unit density and is shadowed by anything in the scene along it; an area light sampled from a point gives the unit direction to a point on its shape, its radiance only on the emitting side, and the same side rule when it is hit by a ray.',
  ['inputs', 'configurations'], 'all reference points, random numbers, light shapes and scene bounds', 'No test samples a light.', ['src/light.rs', 'src/shape_triangle.rs', 'src/scene.rs'], 'sample_li, l, pre_process, VisibilityTester', 'returned direction, radiance, density and visibility')
p('C23', 'Scene construction keeps every shape and light',
  'A scene built from any mix of shapes, lights and area lights contains exactly these: every added shape and emitter can be hit, every light is offered to the integrator once, hits on an emitter identify it, and lights that need the scene extent are told bounds enclosing everything.',
  ['configurations', 'inputs'], 'all counts and mixes of shapes, lights and area lights, also none', 'No test builds a scene.', ['src/scene.rs', 'src/bbox.rs', 'src/container_kdtree.rs', 'src/container_simple.rs'], 'Builder::construct', 'Scene::intersect, Scene::lights')
p('C24', 'Textures select the right value everywhere',
  'A constant texture gives its value everywhere; a checkerboard gives the two inputs alternately on unit cells of the mapped coordinates, also for negative coordinates, changing at every cell boundary and nowhere else, and never crashes; mappings apply exactly the documented scale, offset or transform.',
  ['inputs'], 'all coordinates, mapping parameters and sub-textures', 'No test evaluates a texture.', ['src/texture.rs'], 'parity of floor sums', 'Texture::evaluate')
p('C25', 'Materials build the lobes their parameters describe',
  'Each material offers exactly the reflection and transmission behaviour its parameters ask for: negative colours act as zero, black components add nothing, zero roughness gives perfect specular behaviour and positive roughness a glossy one, and a material with no component scatters nothing without crashing.',
  ['inputs', 'configurations'], 'all texture values (also negative) and roughness values', 'No test builds a material.', ['src/material_*.rs'], 'compute_scattering', 'the returned BSDF\'s behaviour')
p('C26', 'The image does not depend on thread schedule',
  'For every number of threads and every interleaving, each tile is rendered exactly once, each tile is merged into the film exactly once, and the sums in the film are those of single-threaded rendering.',
  ['schedules'], 'all interleavings of 1..n render threads', 'Tests never render.', ['src/integrator.rs', 'src/film.rs'], 'shared tile iterator behind a mutex, film merge under lock', 'film contents after render')
p('C27', 'Invalid radiance never reaches the film',
  'A path value with a NaN, infinite or negative component adds nothing to any pixel, and every valid value is added with the position of the camera sample it was traced for, once per requested sample.',
  ['inputs', 'histories'], 'all path values and sample sequences of a tile', 'Tests never render a tile.', ['src/integrator.rs', 'src/film.rs'], 'render loop filter', 'film contents after rendering a tile')
p('C28', 'Gaussian filter is non-negative, even and vanishes at its radius',
  'The Gaussian reconstruction filter is non-negative within its radius, zero at and beyond it, symmetric in both axes, largest at the centre and non-increasing away from it.',
  ['inputs'], 'all radii, falloffs and offsets', 'No test evaluates the filter.', ['src/filter.rs'], 'exp difference clamped at zero', 'Filter::evaluate')
p('C29', 'Shading frames are orthonormal',
  'The frame built at a hit is orthonormal whenever the hit\'s normal is unit and its tangent perpendicular to it; directions keep length and angle when converted to the frame and back, and every shape provides such a normal and tangent at every reported hit.',
  ['inputs'], 'all unit normals and tangents, all directions, all hits on spheres (also the poles) and triangles with or without vertex normals', 'One fixed frame is tested.', ['src/reflection.rs', 'src/shape_sphere.rs', 'src/shape_triangle.rs', 'src/vector.rs'], 'BSDF::new, partial derivatives, construct_coordinate_system', 'BSDF conversions observed through f/sample_f; Interaction fields')
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
