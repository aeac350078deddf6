"""C17: queries, conversions and writers leave their inputs unchanged."""
from __future__ import annotations

from ..loader import AnalysisError
from ..modref import ModRef

EXPLANATION = (
    "Interprocedural effect analysis (mod sets): for every function of the library the origins of all values are tracked through assignments, containers, "
    "numpy views, attribute reads, properties and calls, and summaries are computed together until they no longer change. A modification (attribute set, "
    "element write, in-place arithmetic, mutating method, output argument) that reaches something the caller passed in is an effect of the function. "
    "Every operation of the library is then compared with the effects it is allowed to have.")
TECHNIQUE = "interprocedural mod/alias analysis against a table of permitted effects"
NOTE = ("Holds for all calls, as far as Python values are tracked: effects through reflection (setattr with computed names), C extensions and callbacks given by "
        "the caller are not seen. Numpy operations are modelled (views, copies, in-place).")
MIN_OBLIGATIONS = 120

# Operations of the library, by module; what is not listed (private helpers, new functions) is judged through its callers.
OPS = """
display.colors: random_rgb_color
display.plot_objects: plot_objects
geom.bboxes: are_bboxes_overlapping bounding_box cube_edges cube_polygons is_point_inside_bbox
geom.building: Building.__init__ Building.add_zone Building.bbox Building.children Building.get Building.get_graph Building.get_mesh Building.get_polygon_paths Building.parent Building.path Building.stitch_solids Building.volume
geom.building.find_location: find_location
geom.building.get_mesh: get_mesh_from_zones
geom.building.graph: graph_polygon graph_solid graph_wall graph_zone
geom.mesh: vstack_mesh
geom.paths.split_path: split_path
geom.paths.validate_name: validate_name
geom.points: are_points_collinear are_points_coplanar create_points_between_list_of_points is_point_in_array is_point_on_segment is_valid_pt list_pts_to_array many_new_points_between_2_points new_point new_point_between_2_points point_to_hash point_to_str point_to_tuple points_equal roll_forward
geom.points.distance: distance_point_to_edge
geom.points.find_close_pairs: find_close_pairs
geom.points.intersections: line_intersection line_segment_intersection
geom.points.visibility: are_points_visible visibility_matrix
geom.polygon: Polygon.__eq__ Polygon.__init__ Polygon.bbox Polygon.children Polygon.contains_polygon Polygon.flip Polygon.get Polygon.get_mesh Polygon.get_some_interior_point Polygon.is_crossing_polygon Polygon.is_facing_polygon Polygon.is_point_inside Polygon.is_touching_polygon Polygon.parent Polygon.parent.setter Polygon.path
geom.polygon.area: polygon_area
geom.polygon.centroid: polygon_centroid
geom.polygon.crossing: are_polygons_crossing is_line_segment_crossing_polygon is_polygon_crossing_cube
geom.polygon.distance: distance_point_to_polygon
geom.polygon.edges: polygon_edges
geom.polygon.facing: are_polygons_facing
geom.polygon.ispointinside: is_point_at_boundary is_point_inside is_point_inside_margin is_point_inside_ortho_projection is_point_inside_projection
geom.polygon.plane: plane_coefficients projection_coefficients
geom.polygon.slice.add_intersection_points: add_intersection_points
geom.polygon.slice.get_point_arrays: get_point_arrays
geom.polygon.slice.locate_slicing_points: locate_point_on_polygon locate_slicing_points
geom.polygon.slice: make_polygons slice_polygon
geom.polygon.slice.remove_redundant_points: remove_redundant_points
geom.polygon.touching: are_all_points_same are_polygons_touching check_poly_a_against_b
geom.rotation: rotate_points rotate_points_around_vector rotate_points_to_plane rotation_matrix
geom.solid: Solid.__init__ Solid.add_wall Solid.bbox Solid.children Solid.get Solid.get_mesh Solid.get_polygon_paths Solid.has_correct_interface Solid.is_adjacent_to_solid Solid.is_point_at_boundary Solid.is_point_inside Solid.parent Solid.parent.setter Solid.path Solid.replace_wall Solid.volume
geom.solid.box: box
geom.solid.floor_plan: floor_plan
geom.solid.get_mesh: get_mesh_from_walls
geom.solid.stitch: get_sup_cut get_walls_and_polygons next_adjacent_polygons remove_outside_points replace_polygon slice_both_and_replace slice_one_and_replace stitch_solids
geom.tetrahedrons: tetrahedron_centroid tetrahedron_volume
geom.triangles: is_corner_convex is_point_inside is_point_on_same_side triangle_area triangle_centroid triangulate
geom.vectors: angle new_vector normal
geom.wall: Wall.__init__ Wall.add_polygon Wall.bbox Wall.children Wall.get Wall.get_mesh Wall.get_polygon_paths Wall.parent Wall.parent.setter Wall.path Wall.replace_polygon
geom.wall.get_mesh: get_mesh_from_polygons
geom.zone: Zone.__init__ Zone.add_solid Zone.bbox Zone.children Zone.get Zone.get_mesh Zone.get_polygon_paths Zone.parent Zone.parent.setter Zone.path Zone.volume
geom.zone.get_mesh: get_mesh_from_solids
io.arrayformat: count_objects from_array_format get_polygon_points_and_faces to_array_format
io.b3d: read_b3d write_b3d
io.dotbim: read_dotbim write_dotbim
io.stl: read_stl write_stl
paths.wildcardpath: WildcardPath.__init__ WildcardPath.fill WildcardPath.get_matching_paths WildcardPath.get_matching_paths_dict_values WildcardPath.get_matching_paths_namedtuple_keys WildcardPath.mkdir WildcardPath.path WildcardPath.path.setter WildcardPath.wrap
random: random_between random_id random_within
sim.rays.dump_buffers: dump_buffers read_buffers
sim.rays.find_nearby_polygons: find_nearby_polygons
sim.rays.find_target: find_target_surface
sim.rays.find_transparent: find_transparent
sim.rays.impulse_response: impulse_response
sim.rays.jit_print: jit_print
sim.rays.movie_from_buffer: make_movie_from_buffer position_buffer_to_lines
sim.rays.ray_buff_plotter: RayBuffPlotter.__init__ RayBuffPlotter.get_lines RayBuffPlotter.get_points RayBuffPlotter.plot
sim.rays.simulation: Simulation.__init__ Simulation.get_transparent_polygon_numbers Simulation.make_dirs Simulation.run
sim.rays.simulation_config: SimulationConfig.__init__ SimulationConfig.set_default_surface_paths SimulationConfig.set_surface_param SimulationConfig.surface_params_to_array
sim.rays.simulation_loop: simulation_loop
sim.rays.voxel_grid: make_voxel_grid
types.cyclic_buffer: convert_to_contiguous cyclic_buf
types.recursive_default_dict: recursive_default_dict recursive_default_dict_to_dict
util.roll_back: roll_back
"""
TREE = {"zones", "solids", "walls", "polygons", "children"}
GEOMETRY = {"pts", "vn", "tri", "ctr", "area", "plane_coefficients", "edges"}
IDENTITY = {"name", "uid", "num", "parent", "_parent"}
PARENT = {"parent", "_parent"}
ADDING = {"Building.add_zone": "zones", "Zone.add_solid": "solids", "Solid.add_wall": "walls", "Wall.add_polygon": "polygons"}


def base(label):
    return label[:-2] if label.endswith("[]") else label


def allowed(op, pname, first, level, label):
    """May operation op change this (field of a) parameter? level P: the argument itself, D: something in it."""
    b = base(label)
    last = op.split(".")[-1]
    own = first and "." in op
    if last == "__init__":
        if own:
            return True
        if op.split(".")[0] in ("Building", "Zone", "Solid", "Wall"):
            return b in PARENT                                   # children learn their parent
        return op == "Simulation.__init__" and pname == "building" and label == "num"
    if op.endswith(".setter"):
        return own
    if op in ADDING:
        return b in PARENT if not own else (level == "P" and b not in GEOMETRY | {"name", "uid", "num", "parent", "_parent"}) or b == ADDING[op] or label == "[]"
    if op in ("Solid.replace_wall", "Wall.replace_polygon"):
        t = "walls" if op.startswith("Solid") else "polygons"
        return b in PARENT or own and (b == t or level == "D" and label == "[]")
    if op == "Building.get_graph":
        # answers may be kept in the building
        return own and b not in TREE | GEOMETRY | IDENTITY and (level == "P" or label.endswith("[]") and label != "[]")
    if op == "Building.stitch_solids":
        return own and (level == "P" and b not in TREE | GEOMETRY | IDENTITY or b in PARENT | {"polygons"})
    if op in ("replace_polygon", "slice_both_and_replace", "slice_one_and_replace", "stitch_solids"):
        return b in PARENT | {"polygons"}
    if op == "to_array_format":
        return label == "num"
    if op.startswith("Simulation.run") or op.startswith("SimulationConfig.set_"):
        return own
    if op == "Simulation.make_dirs":
        return own and level == "P"
    if op == "simulation_loop":
        return pname in ("transparent_polygons", "hits", "energy", "velocity", "position")
    if op == "cyclic_buf":
        return pname == "buffer"
    return False


def check(prog, rep):
    mr = ModRef(prog).solve()
    n = missing = effects = 0
    for line in OPS.strip().splitlines():
        mod, _, names = line.partition(": ")
        for name in names.split():
            q = f"building3d.{mod}.{name}"
            f = mr.funcs.get(q)
            if f is None:
                f = prog.find_func(q)
                if f is None or f.qualname not in mr.sum:
                    missing += 1
                    continue
            n += 1
            rep.funcs.add(f.qualname)
            s = mr.sum[f.qualname]
            ps = f.node.args
            params = [p.arg for p in ps.posonlyargs + ps.args + ps.kwonlyargs] + [x.arg for x in (ps.vararg, ps.kwarg) if x]
            bad = []
            for (t, label), (where, what) in s.mods.items():
                if t[0] == "G":
                    continue
                effects += 1
                if not allowed(name, params[t[1]], t[1] == 0 and f.cls is not None and not f.is_static, t[0], label):
                    bad.append((where, f"{what}: changes {params[t[1]]}" + (f" ({label})" if label != "[]" else "")))
            rep.ob("inputs-unchanged", q[len("building3d."):], not bad, bad[0][0] if bad else f.where(), "; ".join(b[1] for b in bad[:3]))
    rep.count("functions_summarised", len(mr.sum))
    rep.count("permitted_effects_found", effects)
    rep.count("calls_resolved", sum(len(v) for v in mr.calls.values()))
    if missing > 60:
        raise AnalysisError(f"{missing} of the listed operations were not found")
