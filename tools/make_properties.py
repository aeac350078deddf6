#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, not in the generated file."""
import importlib
import json
import sys
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
    )
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)


G = "building3d/geom/"
HIER = [G + x + "/__init__.py" for x in ("polygon", "wall", "solid", "zone", "building")]

prop("C01", "Children keep unique names, their own key and the right parent",
     "A zone, solid, wall or polygon added to its container, at construction or later, is always stored "
     "under its own name and gets that container as its parent. Adding a child whose name is already taken "
     "raises an error and changes nothing: the existing child stays, and the refused child keeps its previous parent. "
     "No building, zone, solid, wall or polygon ever carries a name containing the path separator, whichever "
     "operation gave it the name.",
     ["inputs", "histories"], "all names, all sequences of constructions, additions and renamings",
     "Tests add a handful of children with distinct names; the duplicate, re-parenting and separator cases at the five "
     "levels and in the operations that rename objects are mostly untested.",
     HIER + [G + "paths/validate_name.py", G + "polygon/slice/__init__.py"],
     [("duplicate check, parent link and keyed store", "add_polygon/add_wall/add_solid/add_zone"),
      ("name validation", "validate_name and every assignment of a name")])

prop("C02", "Paths and lookups agree for every object in the tree",
     "The path of an object is the separator-joined chain of names from its building down to it, and looking that path up, "
     "from the building or from any object below it, returns that very object at each of the five levels. A path with a wrong "
     "building name, an unknown part or too many parts raises an error instead of returning some object. "
     "Listing polygon paths of a building, zone, solid or wall yields each polygon below it exactly once, in insertion order.",
     ["inputs", "histories"], "all trees, all objects, all path strings",
     "Tests look up a few paths in one or two fixed buildings; they do not reach all levels from all starting objects, "
     "nor containers with several children at every level.",
     HIER + [G + "paths/__init__.py", G + "paths/split_path.py"],
     [("path composition", "path property of each class"), ("lookup", "get of each class"),
      ("enumeration", "get_polygon_paths of each container")])

prop("C03", "A B3D file restores the whole model exactly",
     "Reading a B3D file written from a building gives a building with the same name and the same zones, solids, walls and polygons, "
     "under the same parents and in the same order, including containers without children. Every polygon gets back exactly the "
     "vertex coordinates, triangles and unique id it had; nothing is rounded, renamed, dropped, merged or invented, and equal "
     "names in different containers do not interfere.",
     ["inputs"], "all buildings: any names, nesting, number of children, coordinates",
     "The tests round-trip fixed two-zone models and compare volumes and names only.",
     ["building3d/io/b3d.py", "building3d/types/recursive_default_dict.py"],
     [("writer", "write_b3d"), ("reader", "read_b3d")], ["returned building", "file content"])

prop("C04", "A dotbim file restores polygons, nesting, names and ids",
     "Reading a dotbim file written by this library gives one polygon for every polygon of the written building, with exactly its "
     "vertex coordinates, triangles, name and unique id, inside the wall, solid, zone and building of the same names and ids. "
     "Each element refers to its own mesh, and equal names in different containers do not interfere. "
     "Files written by other tools are refused.",
     ["inputs"], "all buildings whose containers are non-empty",
     "The tests round-trip one small model and compare the volume and a few names.",
     ["building3d/io/dotbim.py"], [("writer", "write_dotbim"), ("reader", "read_dotbim")])

prop("C05", "STL export and import keep every triangle, in its solid, at full precision",
     "Writing a building to STL emits one named block per solid with every triangle of every polygon of that solid exactly once, "
     "its three vertices in order and all coordinates at full floating-point precision. Reading an STL file creates "
     "one solid per block, carrying the block's identifier, and one triangular polygon per facet of the block with the vertices in file order and unrounded; no facet or block "
     "is skipped, merged into another block or repeated.",
     ["inputs"], "all buildings and all files in the written layout",
     "Tests compare only the total volume and counts of one or two sample models.",
     ["building3d/io/stl.py"], [("writer", "write_stl"), ("reader", "read_stl")])

prop("C06", "The array format indexes every point, face and object consistently",
     "Converting a building to arrays stores every polygon's points and triangles exactly once, in tree order, with each triangle's "
     "indices shifted to its own polygon's points, and numbers polygons, walls, solids and zones by their position so that "
     "every cross-reference names the owner. Each polygon object records the same number the arrays use for it. Converting back, and extracting a "
     "single polygon's points and triangles by its number, recovers exactly that polygon's data and grouping.",
     ["inputs"], "all buildings: any number of zones, solids, walls, polygons, points",
     "Tests convert one or two fixed models and check shapes and the resulting volume.",
     ["building3d/io/arrayformat.py"],
     [("flattening and numbering", "to_array_format, count_objects"),
      ("rebuilding", "from_array_format"), ("extraction", "get_polygon_points_and_faces")])

prop("C07", "A combined mesh contains every part with correctly shifted indices",
     "The mesh of a wall, solid, zone or building contains all points and all triangles of every polygon below it exactly once and in order. "
     "Each triangle's indices are shifted by the number of points that precede its polygon, so every triangle refers to its own polygon's points, "
     "also when some containers in between are empty.",
     ["inputs"], "all containers with any number of children, including empty ones",
     "Tests check the mesh of a unit box; they do not include empty parts or unequal part sizes.",
     [G + "mesh/__init__.py", G + "wall/get_mesh.py", G + "solid/get_mesh.py", G + "zone/get_mesh.py", G + "building/get_mesh.py"],
     [("stacking", "vstack_mesh"), ("collection per level", "get_mesh_from_*")])

prop("C08", "Adjacency graphs are complete, symmetric and free of self-links",
     "In the polygon graph two different polygons of a building are linked exactly when at least one of the requested relations (facing, overlapping, touching) "
     "holds between them, links go both ways and no polygon is linked to itself. All pairs are considered; only pairs "
     "whose bounding boxes do not overlap may be skipped. The wall, solid and zone graphs are the projection of that graph: two objects are "
     "linked exactly when some of their polygons are, again without self-links or duplicates.",
     ["inputs", "configurations"], "all buildings, all combinations of relation flags and levels",
     "Tests use two- or three-box models with fixed flags.",
     [G + "building/graph.py", G + "building/__init__.py"],
     [("pair enumeration and linking", "graph_polygon"), ("projection", "strip_graph, graph_wall, graph_solid, graph_zone"),
      ("request routing", "Building.get_graph")])

prop("C09", "Repeated queries answer for the current request and the current model",
     "A building's adjacency graph answers for the requested level and relation flags, whatever was requested before. "
     "Adding a zone or stitching solids through the building makes the next request see the changed model, and asking for a fresh graph "
     "always recomputes it. Finding transparent polygons always reflects the building passed in as it is now: results of earlier calls, other buildings or "
     "later changes to a returned result never leak into the answer.",
     ["histories"], "all sequences of queries and modifications",
     "Tests call each query once or twice on a fresh building.",
     [G + "building/__init__.py", "building3d/sim/rays/find_transparent.py"],
     [("graph cache", "Building.get_graph, add_zone, stitch_solids"), ("transparent polygon lookup", "find_transparent")])

prop("C10", "Transparent polygons are exactly the facing pairs inside one zone",
     "A polygon is reported as transparent exactly when it faces another polygon of the same zone; both partners are always reported, and polygons facing another "
     "zone or nothing never are. When the search is enabled, the ray engine lets rays pass through exactly the reported polygons, identified by their array-format "
     "numbers; when it is disabled every polygon stops rays.",
     ["inputs", "configurations"], "all buildings, both settings",
     "Tests use one two-solid model.",
     ["building3d/sim/rays/find_transparent.py", "building3d/sim/rays/simulation.py", "building3d/sim/rays/find_target.py"],
     [("selection", "find_transparent"), ("numbering", "get_transparent_polygon_numbers"), ("use", "find_target_surface")])

prop("C11", "Ray results do not depend on how the parallel loop is scheduled",
     "In every parallel loop of the ray engine each iteration writes only data belonging to its own ray and reads nothing that another iteration of the same loop writes. "
     "Totals over rays, such as absorber hits, are never updated from within a parallel loop. "
     "Hence any assignment of rays to threads gives the same states.",
     ["schedules"], "all interleavings, thread counts and numbers of rays",
     "A race shows up rarely, only under JIT with several threads; tests run few rays and compare nothing across schedules.",
     ["building3d/sim/rays/simulation_loop.py"], [("parallel section", "simulation_loop prange body")])

prop("C12", "Ray energy only decreases, never negative, and is credited once",
     "A ray's energy never increases and is never negative in any recorded state; a surface hit lowers it by that surface's absorption, and leaving the "
     "building's bounds or entering an absorber sets it to zero. "
     "An absorber is credited with the energy the ray had at the moment of capture, once, in the step's hit total, which starts from zero each step. A ray without energy neither moves, reflects nor is credited.",
     ["inputs", "histories"], "all geometries, absorptions between 0 and 1, absorber layouts, step counts",
     "Tests run a few rays in a box and check sums within tolerances.",
     ["building3d/sim/rays/simulation_loop.py"],
     [("energy updates", "simulation_loop"), ("absorber credit", "simulation_loop serial section")])

prop("C13", "Saved simulation states are complete, ordered and never overwritten",
     "A run records the initial state and every step of every batch: each batch starts from the positions, velocities, energies and hits at the end of the previous one, every "
     "buffer row is saved under its own step number in its own file kind, and reading a dump returns the rows of all steps in order. "
     "A simulation refuses to start when its state directory already contains files, and accepts an existing empty one.",
     ["configurations", "histories"], "all numbers of steps and batches, all directory states",
     "Tests run one short configuration and compare final shapes.",
     ["building3d/sim/rays/simulation.py", "building3d/sim/rays/simulation_loop.py", "building3d/sim/rays/dump_buffers.py"],
     [("batch loop", "Simulation.run"), ("recording", "simulation_loop buffers"), ("files", "dump_buffers, read_buffers"),
      ("directory check", "Simulation.make_dirs")])

prop("C14", "Every simulation setting takes effect where it belongs",
     "The number of steps and rays, time step, batch size, voxel size, ray speed, source, absorbers and absorber radius given in the configuration are exactly the values the "
     "ray engine and voxel grid use for those purposes. The absorption of each surface used by the engine is the value set for that surface or for a container of it, and the configured default "
     "for surfaces never set, wherever they are in the building. Setting a value for a path changes exactly the polygons under that path.",
     ["configurations"], "all configurations and sequences of parameter settings",
     "Tests check the configuration object, not that its values reach the engine.",
     ["building3d/sim/rays/simulation.py", "building3d/sim/rays/simulation_config.py", "building3d/sim/rays/simulation_loop.py"],
     [("reading of settings", "Simulation.__init__"), ("hand-over", "Simulation.run call of simulation_loop and make_voxel_grid"),
      ("surface values", "SimulationConfig.set_surface_param, surface_params_to_array")])

prop("C15", "The voxel search never misses a polygon close to the ray",
     "Every polygon is listed in each voxel that its bounding box overlaps or touches; a voxel may only drop a polygon that lies strictly on one side of it along some axis. "
     "The engine computes a ray's voxel with the same cell size and rounding as the grid, and the search returns the polygons of that voxel and of all 26 voxels around it.",
     ["inputs"], "all polygons, grid steps and ray positions",
     "Tests check a few cells of a small grid.",
     ["building3d/sim/rays/voxel_grid.py", "building3d/sim/rays/find_nearby_polygons.py", "building3d/sim/rays/simulation_loop.py"],
     [("grid filling", "make_voxel_grid"), ("neighbour search", "find_nearby_polygons"), ("cell of a ray", "simulation_loop")])

prop("C16", "Rays react to the nearest opaque surface ahead, if there is one",
     "The target of a ray is, among the nearby polygons that are not transparent and that the ray hits going forward, one with the smallest distance, and 'no target' exactly when there is none. "
     "The engine uses the points, triangles, normal and absorption of that target only; when there is no target the ray is not reflected and loses no energy at a surface. "
     "After a reflection the target is determined again from the new direction before the ray moves, and a ray with energy left that has no target within the reflection distance moves in every step.",
     ["inputs"], "all ray positions, directions, polygon sets",
     "Tests check a single ray against one box.",
     ["building3d/sim/rays/find_target.py", "building3d/sim/rays/simulation_loop.py"],
     [("selection", "find_target_surface"), ("use of the target", "simulation_loop")])

prop("C17", "Queries, conversions and writers leave their inputs unchanged",
     "Only constructing, adding, replacing and stitching operations, numbering during array conversion, explicit setters and the ray engine's own working state may change objects or arrays passed in by the caller. "
     "All other operations of the library, in particular geometric predicates and measures, rotations, slicing, triangulation, graph and path queries, and file writers, never modify their arguments or the model.",
     ["inputs", "histories"], "all calls of all library operations with any arguments",
     "A test would have to compare all inputs before and after each call; existing tests almost never do.",
     [G, "building3d/io/", "building3d/sim/rays/"],
     [("in-place writes through parameters and self", "every function of the library")])

prop("C18", "A polygon's derived data always match its points",
     "A polygon's triangles, normal, centroid, area and plane are computed from the very points it stores (or are the triangles and normal given with them), and after construction nothing in the library changes "
     "its points or any of these on their own. A flipped polygon is built from the same points in reverse order under the requested name and has the opposite normal; "
     "points stored for a polygon and the triangles kept with them always come from the same triangulation, and a polygon's queries answer from its own points, triangles and normal.",
     ["inputs", "histories"], "all polygons and all later operations on them",
     "Tests check individual values for a few polygons.",
     [G + "polygon/__init__.py"], [("construction", "Polygon.__init__"), ("flip", "Polygon.flip")])

prop("C19", "Geometric results do not depend on where the origin is",
     "Moving all inputs by the same translation moves point-valued results (centroids, intersections, points between points, bounding boxes, rotated points around an anchor) by that translation "
     "and leaves normals, distances, triangle areas, tetrahedron volumes, angles and yes/no answers of point, segment, box and plane tests unchanged, apart from rounding and comparison tolerances.",
     ["inputs"], "all inputs and all translations",
     "Tests evaluate each function at a few places near the origin.",
     [G + "vectors.py", G + "triangles.py", G + "tetrahedrons.py", G + "rotation.py", G + "bboxes.py", G + "points/", G + "polygon/"],
     [("geometry kernels", "functions on points and vectors")])

prop("C20", "Whole-object queries take every part into account",
     "The volume of a building or zone is the sum over all its zones or solids, the volume of a solid combines every triangle of every polygon, and its bounding box covers all points. "
     "Tests of a point against a solid, of adjacency between solids, and the search for the zone, solid or polygon at a location consult every wall and polygon of the objects involved and give up early only once the answer is settled.",
     ["inputs"], "all objects with any number of parts",
     "Tests use boxes where skipping a part often gives the same answer.",
     [G + "building/__init__.py", G + "zone/__init__.py", G + "solid/__init__.py", G + "building/find_location.py"],
     [("aggregation loops", "volume, bbox, is_point_inside, is_point_at_boundary, is_adjacent_to_solid, find_location")])

prop("C21", "Invalid input is refused with an error, not processed",
     "Polygons of fewer than three points, off one plane or with an empty triangle list, too few or too many wall names of a floor plan, slices off the plane or with fewer than two usable points or named by points outside the parts, names with a path separator, "
     "lookups in another building, from an object in no building or of too many parts, unknown graph levels, points outside every solid, step counts that are not whole batches, unnumbered or negatively numbered polygons, missing or uneven saved states, foreign model files, "
     "unknown or missing placeholders of file patterns and non-unit rotation axes always end in an error instead of a result. "
     "An error raised inside the library is never dropped on its way to the caller, except that an impossible slice during stitching and an unsolvable line intersection count as 'no result'.",
     ["inputs", "configurations"], "all invalid inputs of the listed kinds",
     "Tests exercise a few of the refusals with one input each.",
     [G + "polygon/__init__.py", G + "solid/floor_plan.py", G + "polygon/slice/__init__.py", G + "building/__init__.py",
      "building3d/sim/rays/simulation.py", "building3d/sim/rays/simulation_config.py", "building3d/sim/rays/voxel_grid.py", "building3d/paths/wildcardpath.py"],
     [("guards before results", "constructors and entry points")])

prop("C22", "'No result' markers are never used as if they were data",
     "Where an operation can answer 'no intersection', 'no normal', 'no target surface', 'no location' or 'no slice', every place in the library that uses the answer tests for that marker before computing with it, indexing with it or storing it in a result. "
     "The marker values themselves are never modified.",
     ["inputs"], "all inputs that make an operation answer 'no result'",
     "Whether a marker slips through depends on rare geometric configurations that tests do not reach.",
     [G + "points/intersections.py", G + "polygon/slice/", G + "solid/stitch.py", "building3d/sim/rays/simulation_loop.py", "building3d/sim/rays/find_target.py"],
     [("marker producers", "line_intersection, line_segment_intersection, find_target_surface, slice_one_and_replace"), ("marker consumers", "all their call sites")])

prop("C23", "Every operation terminates",
     "Every loop whose number of rounds is not fixed in advance makes progress towards its exit on every path through its body, and every self-calling operation passes on a value that brings it closer to its stopping case. "
     "Hence no input can make triangulation, slicing, stitching, reading a file or running a simulation loop forever.",
     ["inputs"], "all inputs, including degenerate geometry and truncated files",
     "Non-termination shows only on degenerate inputs; a test can only sample them.",
     [G + "triangles.py", G + "polygon/", G + "points/", G + "solid/stitch.py", "building3d/io/stl.py", "building3d/sim/rays/"],
     [("while loops and recursion", "all of the library")])

prop("C24", "Stitching replaces exactly the sliced polygons and visits all neighbours",
     "Stitching a building processes every pair of different solids that the adjacency graph links, whichever zones they are in, and goes on with a pair until no two of its polygons cross or contain each other. "
     "A sliced polygon is replaced, in its own wall only, by exactly the two parts it was cut into, both with the original's orientation; polygons of the same name in other walls stay untouched, and a polygon that cannot be cut is left as it was.",
     ["inputs", "histories"], "all pairs of adjacent solids, all name coincidences",
     "Tests stitch two or three boxes with unique names.",
     [G + "solid/stitch.py", G + "building/__init__.py"],
     [("pair selection", "Building.stitch_solids"), ("replacement", "slice_one_and_replace, replace_polygon")])

prop("C25", "File patterns match exactly the names they generate",
     "A file name produced from a pattern by filling in its placeholders is matched by the same pattern and yields the same numbers back; all other characters of the pattern match only themselves. "
     "Names with extra leading or trailing text, with something other than digits in place of a placeholder, or with different numbers for the same placeholder are never listed as matches. "
     "Asking only for given placeholder values lists exactly the matching files that have all of those values.",
     ["inputs"], "all patterns with placeholder names that do not themselves end in a number, all values and file names",
     "Tests use two or three patterns without special characters.",
     ["building3d/paths/wildcardpath.py"], [("pattern to regular expression", "WildcardPath"), ("filling", "WildcardPath.fill")])

prop("C26", "Replacing a polygon or wall is all-or-nothing",
     "Replacing a polygon of a wall, or a wall of a solid, removes exactly the named child and adds every given replacement under its own name with the container as parent; all other children stay. "
     "If the named child does not exist or a replacement's name collides with a remaining child, an error is raised and the container is left exactly as it was.",
     ["inputs", "histories"], "all names and any number of replacements",
     "Tests replace one polygon by valid new ones.",
     [G + "wall/__init__.py", G + "solid/__init__.py"], [("replacement", "Wall.replace_polygon, Solid.replace_wall")])

prop("C27", "Measures and constructions follow their geometric definitions",
     "In exact arithmetic, triangle areas and centroids, tetrahedron volumes and centroids, normals, angles, rotation matrices and rotated points, points placed along a line, plane coefficients, point-to-edge and point-to-polygon distances, bounding boxes, polygon areas and centroids equal the quantities they name, in every case the definition distinguishes. "
     "Only where the definition leaves nothing to compute (no area, no angle of rotation) is the documented special value returned.",
     ["inputs"], "all points, vectors, angles and polygons with any number of points",
     "Tests compare a few right-angled shapes near the origin, on which many wrong formulas agree with the right ones.",
     [G + "triangles.py", G + "tetrahedrons.py", G + "vectors.py", G + "rotation.py", G + "bboxes.py", G + "points/", G + "polygon/area.py", G + "polygon/centroid.py", G + "polygon/distance.py", G + "polygon/plane.py"],
     [("formulas", "measure and construction functions of the geometry package")])

prop("C28", "Boxes and floor plans have exactly the stated faces",
     "A box of given size and position has six walls (floor, ceiling and four sides) under their documented names, each with one polygon through the four corners on that side, ordered so that it faces outwards. "
     "A solid built from a floor plan has, for any number of plan points, one wall per edge joining the edge's ends at floor and ceiling level, a floor facing down and a ceiling facing up through all plan points, all rotated about the vertical axis and then moved as requested, and carries the given or the documented names.",
     ["inputs"], "all sizes, positions, plans in either direction, heights, rotations, translations and names",
     "Tests build a few boxes and plans and check volumes and counts, which stay right for many wrong faces.",
     [G + "solid/box.py", G + "solid/floor_plan.py"], [("constructors", "box, floor_plan")])

prop("C29", "Yes/no answers about points and polygons follow their criterion",
     "A point is inside a polygon exactly when it lies in the polygon's plane and in one of its triangles (on the outline only if that counts), and inside with a margin when no edge is nearer; polygons face each other exactly when their normals are opposite, their corners coincide one to one and their areas are equal. "
     "Polygons touch exactly when a corner of either lies on the other's outline and neither corners nor edge points of one lie inside the other, and cross exactly when they are coplanar and edges without a common end intersect or run through the other's inside. "
     "Tests of points on segments, in triangles and boxes, of coplanar points, convex corners, box overlap (contact counts), segments through polygons, polygons in cubes and mutual visibility decide by their definition with the tolerance given or the library's default, looking at every edge, triangle and point.",
     ["inputs"], "all points, polygons, boxes, tolerances and flags",
     "Tests ask a few dozen questions about simple shapes; a wrong answer needs a particular shape, order of points, side or tolerance.",
     [G + "polygon/ispointinside.py", G + "polygon/touching.py", G + "polygon/facing.py", G + "polygon/crossing.py", G + "triangles.py", G + "bboxes.py", G + "points/__init__.py", G + "points/visibility.py", G + "points/intersections.py"],
     [("predicates", "functions returning yes or no in the geometry package"), ("polygon methods", "Polygon")])

# --- properties of the system that this technique family cannot decide --------------------------

prop("C30", "Measures stay accurate for extreme shapes",
     "Areas, volumes, centroids and distances differ from their exact values by no more than a small relative rounding error, also for very flat, very small or very remote shapes.",
     ["inputs"], "all representable coordinates", "Only sampled shapes of ordinary size are compared with known values.",
     [G + "polygon/area.py", G + "triangles.py", G + "tetrahedrons.py"], [("formulas", "measure functions")])
prop("C31", "Triangulation covers each polygon exactly once",
     "The triangles of a polygon cover its area without gaps or overlaps.",
     ["inputs"], "all simple polygons", "Only sampled shapes are triangulated.",
     [G + "triangles.py"], [("ear clipping", "triangulate")])
prop("C32", "Slicing preserves the total area and outline",
     "The two parts of a sliced polygon together cover exactly the original polygon.",
     ["inputs"], "all polygons and slicing lines", "Only a few slicing configurations are tested.",
     [G + "polygon/slice/"], [("slicing cases", "get_point_arrays")])
prop("C33", "Rays never leave a closed building",
     "In a building enclosed by polygons no ray passes through an opaque surface.",
     ["inputs", "histories"], "all closed geometries, rays and steps", "Depends on floating-point distances at every step.",
     ["building3d/sim/rays/simulation_loop.py"], [("reflection", "simulation_loop")])
prop("C34", "Answers are right for nearly degenerate shapes",
     "For points very close to an outline, nearly parallel lines and nearly flat shapes, questions about points, polygons and solids get the answer that the exact geometry has.",
     ["inputs"], "all configurations", "Only sampled configurations are tested.",
     [G + "solid/__init__.py", G + "polygon/crossing.py", G + "polygon/touching.py", G + "polygon/facing.py"], [("predicates", "geometry")])
prop("C35", "An impulse response keeps the times and relative sizes of the hits",
     "In the table made from recorded hits, the values recorded in step k stand at k times the time step, and there is one column per absorber, numbered in the order of the absorbers. "
     "All values are the recorded ones divided by one common number, the largest total of a single absorber, so that the totals keep their proportions and the largest is one. "
     "A recording without any hit is refused.",
     ["inputs", "configurations"], "all recordings and time steps",
     "Tests do not cover the conversion at all; a time axis off by a fraction of a step shows only at late times.",
     ["building3d/sim/rays/impulse_response.py"], [("conversion", "impulse_response")])
prop("C37", "Movies and plots show each ray with its own positions and energy",
     "In every frame of a movie the rays are shown where they were at one recorded step, each coloured by its own energy at that step; frames follow the steps one by one, and a trail joins consecutive positions of one ray, each coloured by the energy that ray had there, going back no further than the trail length set. "
     "A plot of several objects draws the faces, lines and points of every object, each object in the colour given for it.",
     ["inputs", "configurations"], "all recordings, numbers of rays and steps, trail lengths, objects and colours",
     "Tests only check that a file appears; what is drawn in which colour is never looked at.",
     ["building3d/sim/rays/movie_from_buffer.py", "building3d/sim/rays/ray_buff_plotter.py", "building3d/display/plot_objects.py"],
     [("movie", "make_movie_from_buffer, position_buffer_to_lines"), ("plots", "RayBuffPlotter, plot_objects")])

prop("C36", "The parts of a slice are named and ordered by the points given",
     "Slicing a polygon returns its two parts, both facing the same way as the polygon, the first under the first name and the second under the second. "
     "If a first (second) point is given, it lies in the first (second) part returned; points that tell the parts apart are never refused, on the edge of a part or inside it. "
     "Each point of the cut is located at the corner it equals, else at the edge it lies on, else inside or outside.",
     ["inputs"], "all polygons, cuts, points and names",
     "Tests name parts with both points given inside; one point only, points on edges and parts returned the other way round are not combined.",
     [G + "polygon/slice/__init__.py", G + "polygon/slice/locate_slicing_points.py"], [("naming of the parts", "make_polygons"), ("location of cut points", "locate_point_on_polygon")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C30": "Rounding error and cancellation depend on run-time coordinates; no sound static bound exists without limits on the inputs, which the library does not set. (The formulas themselves are decided in exact arithmetic by C27.)",
    "C31": "Whether ear clipping covers every simple polygon exactly once depends on run-time coordinates and tolerances.",
    "C32": "Coverage of the original by the two parts is a geometric relation between run-time coordinates; source analysis cannot bound it.",
    "C33": "Whether a ray can cross a surface depends on floating-point distances at every step of a run.",
    "C34": "Whether rounding and tolerances lead to the exact answer near a limit depends on run-time coordinates; no sound static bound exists. (The criteria themselves are decided by C29.)",
}
done = [p["id"] for p in P if os.path.exists(os.path.join(here, "sa", "props", p["id"].lower() + ".py"))]
P = [p for p in P if p["id"] in done or p["id"] in NA]
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
sys.path.insert(0, here)
checks = []
for p in P:
    if p["id"] in NA:
        continue
    mod = importlib.import_module("sa.props." + p["id"].lower())
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 -m sa.run {p['id']}",
        "thorough_cmd": f"python3 -m sa.run {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": getattr(mod, "TECHNIQUE", "value-provenance dataflow analysis against a specification"),
        "level": "other",
        "level_note": getattr(mod, "NOTE", mod.EXPLANATION),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 -m sa.run selfcheck",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "All checks parse /repo's sources afresh on every run and never execute them. No hooks are used. "
             "Exit 2 means an obligation could not be interpreted, exit 3 that an anchor of the analysis has vanished.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties", len(checks), "checks")
