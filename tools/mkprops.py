"""Writes /verif/properties.jsonl (edit here, run, commit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop("P01", "Python ray-surface intersections are exactly the forward crossings",
 "Intersecting a ray with a sphere or a finite capped cylinder returns exactly the points ahead of the ray origin where the ray's line meets the surface: none missing, none invented, every returned point on the surface and on the ray, ordered nearest first. The same holds for every sphere radius, cylinder length and radius, and every ray origin (inside, outside or on the surface) and direction.",
 ["inputs"], "all radii, lengths, ray origins and directions (non-degenerate: not tangent within rounding)",
 "Tests intersect a few axis-aligned rays with unit shapes; the claim ranges over all origins, directions and dimensions, and one missed crossing leaks a ray through a wall.",
 ["pvtrace/geometry/sphere.py", "pvtrace/geometry/cylinder.py", "pvtrace/geometry/utils.py"],
 [("sphere intersections", "pvtrace/geometry/sphere.py:Sphere.intersections"), ("cylinder intersections", "pvtrace/geometry/utils.py:ray_z_cylinder")])
prop("P02", "Membership, surface tests and normals agree with the shape",
 "For spheres and capped cylinders, a point strictly inside is reported as contained and not on the surface, a point clearly outside is neither, and a point on the surface is reported as on the surface. At a surface point of a sphere, cylinder or box the reported normal has unit length, is perpendicular to that face and points out of the shape, and asking whether a direction is entering is true exactly when the direction opposes that outward normal.",
 ["inputs"], "all dimensions and all points outside the rounding tolerance band around surfaces, edges and rims",
 "Tests use a handful of points per shape; inside/outside confusion only shows for particular points and sizes.",
 ["pvtrace/geometry/sphere.py", "pvtrace/geometry/cylinder.py", "pvtrace/geometry/box.py"],
 [("contains/is_on_surface/normal/is_entering", "pvtrace/geometry/{sphere,cylinder,box}.py")])
prop("P03", "Compiled engine intersects boxes, spheres and cylinders exactly",
 "In the compiled engine, a ray meets a box, a sphere or a capped cylinder at exactly the points where its line crosses that shape's surface ahead of the origin (beyond the engine's self-intersection tolerance): no crossing is missed, invented or duplicated. The outward normal the engine uses at each crossing has unit length and belongs to the face that was crossed.",
 ["inputs"], "all shape dimensions, ray origins and directions, away from edges, tangency and the tolerance band",
 "The existing tests only compare engines statistically on a few scenes; a missed crossing in a corner case changes averages by less than their tolerance.",
 ["pvtrace/engine/_kernel.pyx"],
 [("shape intersection and normals", "pvtrace/engine/_kernel.pyx: intersect_box/intersect_sphere/intersect_cylinder and normals")])
prop("P04", "Node placement: transforms are rigid, invertible and compose along the tree",
 "Placing a node by translating, rotating, assigning a location, or looking in a direction always gives a rigid placement: distances and angles are preserved, and mapping points, vectors or rays from one node to another and back returns the original. Mapping through a chain of parents equals composing each step, points are affected by translation while directions are not, translation moves the node's origin by exactly the given vector, and looking along a direction turns the node's own z axis into that direction.",
 ["inputs", "configurations"], "all translations, rotation angles about listed axes, look directions, and node pairs in trees up to depth three",
 "Tests use right angles and unit vectors in shallow trees; a wrong inverse, order or sign is invisible there.",
 ["pvtrace/scene/node.py", "pvtrace/geometry/transformable.py", "pvtrace/geometry/transformations.py", "pvtrace/geometry/utils.py", "pvtrace/light/ray.py"],
 [("node to node transforms", "pvtrace/scene/node.py:Node.transformation_to/point_to_node/vector_to_node"), ("pose updates", "pvtrace/geometry/transformable.py"), ("ray re-representation", "pvtrace/light/ray.py:Ray.representation")])
prop("P05", "Python tracer finds the nearest surface and both media",
 "At every step the Python tracer selects the nearest surface ahead of the ray, reports its true distance, names the innermost object that contains the ray between its position and that surface as the current medium, and names the medium on the far side as the object entered or, when leaving, the enclosing object or the touching neighbour that begins there. A ray that has nothing but the world boundary ahead leaves through it.",
 ["inputs", "configurations"], "all positions and sizes of nested, sibling and touching convex objects crossed by the ray, up to four objects including the world",
 "Tests fix a few nested boxes and positions; the answer depends on the relative order of crossings for every arrangement.",
 ["pvtrace/algorithm/photon_tracer.py", "pvtrace/scene/scene.py"],
 [("container and next hit", "pvtrace/algorithm/photon_tracer.py:find_container/next_hit"), ("scene intersections", "pvtrace/scene/scene.py:Scene.intersections")])
prop("P06", "Compiled engine finds the nearest surface and both media",
 "At every step the compiled engine selects the nearest surface ahead of the ray over all objects, names the innermost object that contains the ray before it as the current medium, and names the medium beyond it as the object entered or, when leaving, the enclosing object or the touching neighbour that begins there.",
 ["inputs", "configurations"], "all positions and sizes of nested, sibling and touching objects crossed by the ray, up to four objects including the world",
 "Statistical engine comparisons use two or three fixed scenes; the answer depends on the order of crossings for every arrangement.",
 ["pvtrace/engine/_kernel.pyx"],
 [("scene scan and container choice", "pvtrace/engine/_kernel.pyx: next_hit")])
prop("P07", "Python optics: Fresnel, Snell and mirror laws",
 "Reflectivity at an interface always lies between 0 and 1, equals the unpolarised Fresnel value, and is 1 beyond the critical angle. Reflected directions are unit mirror images about the surface normal on the incident side; refracted directions are unit, lie in the plane of incidence, obey Snell's law and leave on the far side, whichever way the stored normal points.",
 ["inputs"], "all refractive index pairs, incidence angles and directions",
 "Tests check a few angles; a sign, index swap or critical angle slip appears only for some inputs.",
 ["pvtrace/material/utils.py", "pvtrace/material/surface.py"],
 [("Fresnel reflectivity, specular reflection, refraction", "pvtrace/material/utils.py"), ("Fresnel surface", "pvtrace/material/surface.py")])
prop("P08", "Surface decisions: reflect exactly with the stated probability",
 "At an interface the ray is reflected exactly when the random draw falls below the interface's reflectivity and transmitted otherwise; reflected rays stay in their medium and transmitted rays enter the other, with only the direction changed and never the position or wavelength. An interface configured not to reflect always transmits straight through, and custom surface rules for reflectivity and direction are honoured for every hit.",
 ["inputs", "configurations"], "all random draws, incidence angles, index pairs and built-in surface delegates",
 "Tests draw a few seeds; the exact threshold and the untouched ray fields must hold for every draw and input.",
 ["pvtrace/material/surface.py", "pvtrace/material/material.py"],
 [("surface decision", "pvtrace/material/surface.py:Surface.is_reflected/reflect/transmit")])
prop("P09", "Python absorption follows Beer-Lambert and picks absorbers by weight",
 "The distance sampled for absorption is the exact inverse of exponential attenuation at the summed coefficient of all components at the ray's wavelength, so the probability of surviving a distance is exp(-coefficient x distance) and a medium with zero coefficient never absorbs. Once absorbed, each component is chosen for exactly the share of draws given by its coefficient over the total, and a component with zero coefficient is never chosen.",
 ["inputs", "configurations"], "all random draws, wavelengths, constant or tabulated coefficients, up to three components per material",
 "Tests sample a few random numbers; the share of the unit interval mapped to each outcome must be exact for all coefficients.",
 ["pvtrace/material/material.py", "pvtrace/material/component.py"],
 [("penetration depth and component choice", "pvtrace/material/material.py"), ("coefficients", "pvtrace/material/component.py")])
prop("P10", "Python re-emission: position kept, wavelength and direction sampled correctly",
 "A component that absorbs a ray re-emits exactly when the draw falls below its quantum yield. Re-emitted rays leave from the absorption point in a unit direction; a scatterer keeps the wavelength, while a luminophore emits a wavelength taken from its emission spectrum, never shorter than an absorbed one inside that spectrum's range in redshift mode, with a delay that is never negative added to the ray's age.",
 ["inputs", "configurations"], "all random draws, quantum yields, absorbed wavelengths, emission modes and small tabulated spectra",
 "Tests sample specific seeds on one dye; the claim is over every draw and every spectrum.",
 ["pvtrace/material/component.py", "pvtrace/material/utils.py", "pvtrace/material/distribution.py"],
 [("radiative decision and emission", "pvtrace/material/component.py")])
prop("P11", "Spectral distributions: normalised, monotone, and sampled by exact inverse",
 "A distribution built from samples has a cumulative function that rises monotonically from 0 to 1 in proportion to the area (or bin content) of the spectrum; looking up a probability inverts it, so lookup and sample round-trip and samples always stay in the spectrum's range. Evaluating the spectrum interpolates the given points (or returns the bin's value) exactly, and invalid tables (negative or non-finite values, unsorted abscissae) are rejected.",
 ["inputs"], "all tables of two to four points with symbolic abscissae and ordinates, all probabilities and abscissae, both histogram and interpolated modes",
 "Tests use smooth, uniformly spaced tables at a few points; non-uniform spacing, zero runs and edges are not reached.",
 ["pvtrace/material/distribution.py"],
 [("distribution", "pvtrace/material/distribution.py:Distribution")])
prop("P12", "Light sources emit unit directions and positions inside their stated masks",
 "Every built-in direction sampler returns a unit vector inside its stated cone or hemisphere and realises its stated angular law exactly as a function of the uniform draws (isotropic, cone, Lambertian, Henyey-Greenstein); every position mask returns points inside its stated rectangle, disc or box. The vectorised emitter used by the compiled engine maps the same kind of draws to the same ranges and laws.",
 ["inputs", "configurations"], "all uniform draws and all mask and cone parameters",
 "Tests check a few draws; the law must hold for every draw and parameter including extremes.",
 ["pvtrace/material/utils.py", "pvtrace/light/light.py", "pvtrace/light/utils.py", "pvtrace/engine/emit.py"],
 [("samplers and masks", "pvtrace/material/utils.py, pvtrace/light/light.py"), ("vectorised emission", "pvtrace/engine/emit.py")])
prop("P13", "Python event histories are well formed and account for every ray",
 "Every traced ray's history starts with generation, ends in exactly one terminal event (exit, non-radiative loss or kill), and has one entry per event in which each event's ray continues from the previous one: position and distance change only along the previous direction, travel and time never decrease and equal distance and optical path, and the wavelength changes only at emission. A ray starting inside the world is killed exactly when the allowed number of steps or the allowed path length is exceeded, and never otherwise.",
 ["inputs", "histories"], "all random draws, positions, coefficients and event limits, for histories up to six steps",
 "Tests trace a few rays in a fixed scene; a rule over every sequence of events and draws is not reached by samples.",
 ["pvtrace/algorithm/photon_tracer.py", "pvtrace/light/ray.py", "pvtrace/light/event.py"],
 [("trace loop", "pvtrace/algorithm/photon_tracer.py:follow"), ("propagation", "pvtrace/light/ray.py:Ray.propagate")])
prop("P14", "Compiled optics and sampling functions obey their physical laws",
 "In the compiled engine, reflectivity equals the unpolarised Fresnel value in [0,1] with total internal reflection beyond the critical angle, refracted and reflected directions are unit and obey Snell's and the mirror law, phase-function directions are unit and follow their stated law of the draws, and table interpolation is exact and clamped to the table range. Emitted wavelengths come from the emission table and in redshift mode are never shorter than the absorbed one.",
 ["inputs"], "all index pairs, angles, draws and small tables",
 "Engine tests compare averages against the Python tracer; per-call exactness for all inputs is not checked.",
 ["pvtrace/engine/_kernel.pyx"],
 [("optics and sampling helpers", "pvtrace/engine/_kernel.pyx")])
prop("P15", "Compiled event log: bounded, well formed and physically accounted",
 "For every ray that starts inside the world the compiled engine writes between one and the allowed number of log rows, never outside the ray's own rows, beginning with generation and ending with exactly one terminal event. Travel and time never decrease and match the distance moved, position advances along the previous direction, directions stay unit, and each logged event names the nodes, component and surface actually involved; turning event logging off does not change what happens to the ray, except that a ray is killed once its log is full.",
 ["inputs", "histories", "configurations"], "all random draws, positions, coefficients and event limits, for scenes of up to three objects and up to four steps",
 "Engine tests check totals on fixed seeds; buffer bounds and grammar must hold for every history and limit.",
 ["pvtrace/engine/_kernel.pyx"],
 [("trace loop and logging", "pvtrace/engine/_kernel.pyx: trace_one/log")])
prop("P16", "Recorders count each matching event exactly once in the right bin (Python)",
 "A recorder counts a ray's event if and only if the event's kind, node, face and crossing direction match what the recorder was declared for, and adds it to the bin whose half-open interval holds the value, ignoring values outside the declared range. Each ray is counted at most once per matching event, spectra and totals agree, and recorders never alter the histories they observe.",
 ["inputs", "histories", "configurations"], "all event sequences up to four events, all recorder filters, all bin ranges and values",
 "Tests tally a few hand-written histories; bins, filters and edge values over all histories are not sampled.",
 ["pvtrace/engine/tally.py", "pvtrace/engine/recorder.py"],
 [("tallying histories", "pvtrace/engine/tally.py")])
prop("P17", "Recorders count each matching event exactly once (compiled engine)",
 "The compiled engine's recorders count an event if and only if its kind, node, facet and crossing direction match the recorder's declaration, and put its value in the bin whose half-open interval contains it, never outside the recorder's own bins. The same event gives the same counts as the Python tally.",
 ["inputs", "configurations"], "all events, filters, values, ranges and bin counts",
 "Tests compare totals on one or two scenes; boundary values and filter combinations are not enumerated.",
 ["pvtrace/engine/_kernel.pyx", "pvtrace/engine/recorder.py", "pvtrace/engine/compiler.py"],
 [("compiled tally", "pvtrace/engine/_kernel.pyx: tally")])
prop("P18", "Scene compilation is faithful, and refuses what it cannot represent",
 "Compiling a scene for the engine carries over every object's shape parameters, placement, refractive index, coefficients, quantum yields, spectra, surface rules and recorders unchanged and attached to the right object, so each number the engine reads equals what the Python objects report. Anything the engine cannot represent (unsupported shapes, materials, surfaces, delegates or recorders, and subclasses of supported ones) is refused with an error rather than silently ignored.",
 ["inputs", "configurations"], "scenes of up to three objects with symbolic numbers, and every unsupported kind of object",
 "Tests compile a few scenes and compare averages; swapped or dropped parameters only show for particular values.",
 ["pvtrace/engine/compiler.py", "pvtrace/engine/api.py"],
 [("scene lowering", "pvtrace/engine/compiler.py")])
prop("P19", "Compiled random streams: in range, per-ray and independent of scheduling",
 "Every uniform draw in the compiled engine lies in [0,1) for every generator state. Each ray's random stream and log rows depend only on the seed and its own index, so bundle results do not depend on the number of threads or how rays are chunked, and no two rays ever write the same row.",
 ["inputs", "schedules", "configurations"], "all 256-bit generator states, all seeds and ray indices, all chunkings of the parallel loop",
 "Tests run one or two thread counts on one seed; range at rare states and every schedule cannot be sampled.",
 ["pvtrace/engine/_kernel.pyx", "pvtrace/engine/api.py"],
 [("random generator and parallel loop", "pvtrace/engine/_kernel.pyx: rng_*, trace_bundle")])
prop("P20", "Simulating in parallel traces every requested ray exactly once",
 "For every number of rays and workers, the rays handed to the workers sum to exactly the number requested, every worker is seeded with its own independent random draw, and results come back complete and in the order of the workers' tasks. A given seed with one worker gives the same results again, and a seed together with more than one worker is refused with an error.",
 ["inputs", "configurations"], "all ray counts and worker counts within bounds, all seeds",
 "Tests use one or two counts; remainders and the case of fewer rays than workers are not covered.",
 ["pvtrace/scene/scene.py"],
 [("work splitting", "pvtrace/scene/scene.py:Scene.simulate")])
prop("P21", "Results database keeps every event and gives every ray its own identity",
 "Writing simulation results to the database stores every event of every ray exactly once, with its fields intact and in order, and never merges two rays under one identity whichever worker process handled them. When only end rays are kept, exactly its generation, its terminal event and its events at the surfaces of objects (entering, escaping, reflected outside) are stored.",
 ["inputs", "histories", "schedules"], "all interleavings of results from up to three workers and tasks, process reuse, and histories up to four events",
 "Tests write one ray; identity collisions need a particular assignment of tasks to processes.",
 ["pvtrace/cli/db.py", "pvtrace/cli/main.py", "pvtrace/scene/scene.py"],
 [("database writer", "pvtrace/cli/db.py"), ("worker side monitor", "pvtrace/scene/scene.py")])
prop("P22", "Command-line counts, spectra and times select exactly the matching rays",
 "Each query offered by the command line (entering, escaping, reflected, lost, reacted, killed, filtered by node, facet, or source) selects exactly the rays whose stored history satisfies its definition. A count counts each such ray once; spectra and times list each such ray with its own wavelength or duration at the matching events, each distinct value once, so that counts, spectra and times of one filter concern the same rays; and the command never fails on a valid database.",
 ["inputs", "histories"], "all databases of up to three rays with up to three events each, every node, facet and source filter",
 "Tests run a query or two on one small database; selection conditions must hold for all histories.",
 ["pvtrace/cli/count.py", "pvtrace/cli/spectrum.py", "pvtrace/cli/time.py", "pvtrace/cli/db.py"],
 [("queries", "pvtrace/cli/{count,spectrum,time}.py")])
prop("P23", "Scene files are parsed into exactly the scene they describe",
 "Parsing a valid scene description yields one node per entry with the shape, size, position, parent, material, components, surfaces, light and masks it names, each number unchanged and in the stated units, and defaults only where a field is absent. Descriptions that break the published schema, give vectors of the wrong length, directions of zero length or numbers that are not finite, or name things that do not exist, are rejected with an error.",
 ["inputs", "configurations"], "all numeric values and all combinations of optional fields in the supported version",
 "Tests parse fixed example files; swapped or dropped fields only show for particular combinations and values.",
 ["pvtrace/cli/parse.py"],
 [("scene file parser", "pvtrace/cli/parse.py")])
prop("P24", "Automatic recorders cover each object's faces and events without overlap",
 "The automatically generated recorders (from the scene file or the studio's button) give every object inside the world its own uniquely named set: one for rays escaping each face of a box, or the whole surface of a sphere or cylinder, and one for losses in its volume. Each ray escaping an object is counted in exactly the recorder of the face it leaves through, however the object is placed and turned, and each loss in exactly the recorder of its object; nothing is counted twice and none is missed.",
 ["configurations", "inputs"], "all scenes of up to three objects of supported shapes and up to two components",
 "Tests look at one scene's names; coverage without overlap over all events and placements is not checked.",
 ["pvtrace/cli/parse.py", "pvtrace/studio/server.py", "pvtrace/engine/recorder.py"],
 [("automatic recorders", "pvtrace/cli/parse.py, pvtrace/studio/server.py")])
prop("P25", "Studio edits are atomic and uploads stay inside the workspace",
 "Applying a scene in the studio server either succeeds and replaces the current scene, or fails and leaves the previous scene and document untouched; moving an object puts it at the requested world position and changes only that object's placement. An uploaded file is written inside the designated folder whatever its name, and can then be used by that name in the scene.",
 ["inputs", "histories", "fault_sequences"], "all symbolic placements, all failure points while applying, and all file names up to a bounded length",
 "Tests apply a valid and an invalid scene and a name or two; failure points and names are unbounded.",
 ["pvtrace/studio/server.py"],
 [("apply, patch and upload", "pvtrace/studio/server.py")])
prop("P26", "Renderer shows what was traced with a bounded number of objects",
 "Drawing ray histories adds one line per travelled segment with that segment's end points and a valid colour of its wavelength, and the number of drawn objects never exceeds the configured maximum: old ones are removed completely, oldest first. Any wavelength maps to colour channels between 0 and 255, with wavelengths outside the visible range still valid. A scene's objects are drawn once each, with their own dimensions, at their place in the world.",
 ["inputs", "histories"], "all wavelengths, and all sequences of up to five added histories with any maximum",
 "Tests do not draw with a bound; leaks need longer sequences.",
 ["pvtrace/scene/renderer.py", "pvtrace/light/utils.py"],
 [("renderer history", "pvtrace/scene/renderer.py"), ("wavelength colours", "pvtrace/light/utils.py")])
prop("P27", "Solar concentrator device: counts partition the rays, spectra match",
 "For a simulated concentrator every thrown ray is counted in exactly one fate (entering, reflected or escaping at a named facet as solar or luminescent, lost to non-radiative recombination, killed, or missing the slab), facet names correspond to the physical sides of the slab, and the summary's efficiencies are the matching ratios of those counts. Mirrors and cells attached to a facet act only on that facet.",
 ["inputs", "histories", "configurations"], "all histories up to three events, slab sizes and facet attachments",
 "Tests build one device; the partition over every fate and facet is not checked.",
 ["pvtrace/device/lsc.py"],
 [("device counts and facets", "pvtrace/device/lsc.py")])
prop("P28", "Scene emission cycles through all lights in world coordinates",
 "Emitting N rays from a scene yields exactly N rays taken from the scene's lights in turn, each expressed in world coordinates by the placement of its light and carrying that light's name as its source. Streaming or bundling the emission for the compiled engine yields the same assignment of rays to lights whatever the bundle size.",
 ["inputs", "configurations"], "all light placements, numbers of lights up to three, ray counts and bundle sizes up to seven",
 "Tests use a single light at the origin; rotation, cycling and bundle boundaries are not reached.",
 ["pvtrace/scene/scene.py", "pvtrace/engine/emit.py", "pvtrace/engine/api.py", "pvtrace/light/light.py"],
 [("scene emission", "pvtrace/scene/scene.py:Scene.emit"), ("bundle emission", "pvtrace/engine/emit.py")])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
