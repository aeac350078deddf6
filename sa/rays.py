"""The ray engine's main loop as analysed by the array-kernel analysis; shared by the properties about it."""
from __future__ import annotations

from . import terms as tm
from .kernel import FULL, Kernel
from .loader import AnalysisError
from .terms import mk

R = "building3d.sim.rays."
ARRAYS = dict(position=2, velocity=2, energy=1, hits=1, absorbers=2, points=2, faces=2, polygons=1, walls=1, surf_absorption=1)
PRIMITIVES = dict(nearby=R + "find_nearby_polygons.find_nearby_polygons", target=R + "find_target.find_target_surface",
                  distance="building3d.geom.polygon.distance.distance_point_to_polygon", normal="building3d.geom.vectors.normal",
                  unpack="building3d.io.arrayformat.get_polygon_points_and_faces", log=R + "jit_print.jit_print")


class Engine:
    def __init__(self, prog):
        self.prog = prog
        self.f = prog.func(R + "simulation_loop.simulation_loop")
        a = self.f.node.args
        names = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        need = set(ARRAYS) | {"num_steps", "num_rays", "ray_speed", "time_step", "grid_step", "grid", "absorber_radius", "transparent_polygons"}
        if need - set(names):
            raise AnalysisError(f"the ray loop no longer takes {', '.join(sorted(need - set(names)))}")
        self.prim = {}
        for k, q in PRIMITIVES.items():
            g = prog.find_func(q)
            if g is not None:
                self.prim[k] = g.qualname
        self.K = Kernel(prog, opaque=self.prim.values())
        spec = {k: ("arr", r) for k, r in ARRAYS.items()}
        spec["transparent_polygons"] = ("set",)
        spec["grid"] = ("dict",)
        self.out, self.rets = self.K.run(self.f, spec)
        self.root = {k: self.K.by_name[k] for k in spec}
        self.eps = mk("p", "eps") if "eps" in names else None

    def stores(self, name):
        r = self.root[name]
        return [e for e in self.K.events if e.root is r and e.kind in ("store", "mutate")]

    def loop(self, key):
        for r in self.K.loop_recs:
            if r.key == key:
                return r

    def ray_loops(self):
        """Loops over rays: those whose count is the number of rays."""
        n = mk("p", "num_rays")
        return [r for r in self.K.loop_recs if r.index is not None and r.count is n]


class Sim:
    """A simulation object from its creation to the end of its run, as one chain of analysed calls."""

    def __init__(self, prog):
        self.prog = prog
        q = dict(grid=R + "voxel_grid.make_voxel_grid", loop=R + "simulation_loop.simulation_loop", dump=R + "dump_buffers.dump_buffers",
                 unpack=PRIMITIVES["unpack"], arrays="building3d.io.arrayformat.to_array_format", transparent=R + "find_transparent.find_transparent",
                 params=R + "simulation_config.SimulationConfig.surface_params_to_array")
        self.q = {k: g.qualname for k, g in ((k, prog.find_func(n)) for k, n in q.items()) if g is not None}
        if {"grid", "loop", "dump", "arrays"} - set(self.q):
            raise AnalysisError("parts of the simulation run have vanished")
        self.K = K = Kernel(prog, opaque=self.q.values())
        self.init = prog.func(R + "simulation.Simulation.__init__")
        self.run = prog.func(R + "simulation.Simulation.run")
        K.types[mk("p", "self")] = prog.cls(R + "simulation.Simulation")
        names = [p.arg for p in self.init.node.args.args]
        self.cfg, self.building = mk("p", "sim_cfg"), mk("p", "building")
        if not {"self", "sim_cfg", "building"} <= set(names):
            raise AnalysisError("a simulation is no longer made from a building and a configuration")
        K.types[self.cfg] = prog.cls(R + "simulation_config.SimulationConfig")
        self.made, _ = K.run(self.init, {})
        if self.made.dead:
            raise AnalysisError("creating a simulation always fails")
        self.start = self.made.copy()
        self.end, self.rets = K.run(self.run, {}, self.made)

    def calls(self, kind):
        return [c for c in self.K.calls if c[0] == self.q.get(kind)]

    def setting(self, group, name):
        return mk("sel", mk("attr", self.cfg, group), (tm.const(name),))
