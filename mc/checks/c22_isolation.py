"""C22: independence of models, problems, solvers, tracks and the caller's own objects."""
import dataclasses
import hashlib
import itertools
import os

import numpy as np

from mc import stub

stub.install()

from mc import core  # noqa: E402
from mc import libmodels as L  # noqa: E402
from mc import ref as R  # noqa: E402
from mc import models as MM  # noqa: E402

CHECK = dict(
    id="C22",
    level="model_checking",
    technique="explicit-state exploration of all interleavings of the life cycles of two or three objects (build, reconfigure, evaluate, "
    "solve) sharing the caller's configurations, parameter trees and arrays, on the real code; after every step every object must equal "
    "its own solitary run (noninterference) and the caller's objects must be unchanged",
    rule="all interleavings of the scripts of every pair of object kinds (and of triples); states are the vectors of script positions with "
    "the observations made there, a trace is one interleaving replayed on fresh objects",
    assumptions=["the model object handed to a problem belongs to that problem"],
    note="Every interleaving within the bounds is replayed on the real classes and compared exactly, by digest of everything observable.",
)


# ---- digests ---------------------------------------------------------------------------------------
def plain(o):
    """A comparable picture of an object made of data."""
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        return (type(o).__name__,) + tuple((f.name, plain(getattr(o, f.name))) for f in dataclasses.fields(o))
    if hasattr(o, "to_dict"):
        return plain(o.to_dict())
    if isinstance(o, dict):
        return ("d",) + tuple((k, plain(v)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(plain(v) for v in o)
    if isinstance(o, (str, bool, int, float, type(None))):
        return repr(o)
    if isinstance(o, type):
        return o.__name__
    a = np.asarray(o)
    if a.dtype == object:
        return ("o", a.shape) + tuple(plain(v) for v in a.ravel())
    return (a.dtype.str, a.shape, a.tobytes())


def digest(o):
    return hashlib.sha1(repr(plain(o)).encode()).hexdigest()


def look_model(m, nominal):
    s, u, mesh = nominal
    r = m.forward(dict(s), dict(u), mesh) if s is not None else m.forward(dict(u))
    out = dict(params=m.get_recursive_params(), defaults=m.get_recursive_default_params() if not isinstance(m, RandomDefaults) else 0,
               config=type(m).get_recursive_default_model_config(), names=[tuple(n) for n in m.names],
               outputs={k: np.asarray(v, float) for k, v in r.outputs.items()})
    if s is not None:
        out["dot"] = {k: np.asarray(v, float) for k, v in r.states_dot.items()}
    return out


class RandomDefaults:
    pass


def look_problem(p):
    x = 1.0 + 0.05 * R.generic(p.num_dec, 3)
    lam = R.generic(p.num_con, 4)
    return dict(n=p.num_dec, m=p.num_con, lb=p.lb, ub=p.ub, cl=p.cl, cu=p.cu, con=p.split_constraints(np.ravel(p.constraints(x))), obj=float(p.objective(x)),
                grad=np.ravel(p.gradient(x)), jac=np.ravel(p.jacobian(x)), js=[np.ravel(i) for i in p.jacobianstructure()],
                hess=np.ravel(p.hessian(x, lam, 0.7)), hs=[np.ravel(i) for i in p.hessianstructure()], mesh=p.get_mesh_from_scale(3.0) if hasattr(p, "get_mesh_from_scale") else 0,
                params=p.model.get_recursive_params() if hasattr(p, "model") else 0, names=p.model.names if hasattr(p, "model") else 0)


# ---- the caller's objects ----------------------------------------------------------------------------
class Caller:
    def __init__(self, folder):
        from lumos.models.composition import ModelMaker
        from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig, ScaleConfig
        from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
        from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP
        from lumos.simulations.drone_simulation import DroneSimulationConfig
        from lumos.simulations.laptime_simulation import LTCConfig
        from mc.checks import c21_simulations as S

        np.random.seed(3)
        L.register()
        N = 4
        self.bound_lo, self.bound_hi = -1.0 - 0.1 * np.arange(N), 2.0 + 0.1 * np.arange(N)
        self.bounds = (BoundConfig("states", "p", (self.bound_lo, self.bound_hi)), BoundConfig("inputs", "u", (-3.0, 3.0)))
        self.bcs = (BoundaryConditionConfig(0, "states", "p", 0.3), BoundaryConditionConfig(-1, "states", "p", -0.2))
        self.scales = (ScaleConfig("states", "p", 4.0), ScaleConfig("inputs", "u", 0.5))
        self.points = np.array([0.0, 0.3, 0.45, 1.0])
        self.noncyclic = ["states.time"]
        kw = dict(num_intervals=3, bounds=self.bounds, boundary_conditions=self.bcs, scales=self.scales)
        self.free = ScaledMeshOCP.get_sim_config(backend="custom", interval_points=self.points, **kw)
        self.fixed = FixedMeshOCP.get_sim_config(backend="casadi", is_condensed=True, is_cyclic=True, non_cyclic_vars=self.noncyclic, **kw)
        self.tree_a = MM.MODELS["A"][0]().get_recursive_params()
        self.tree_a.set_param("a", 0.9)
        self.tree_v = L.make_model("SimpleVehicleOnTrack").get_recursive_params()
        self.tree_v.set_param("vehicle.vehicle_mass", 1500.0)
        self.conf_v = ModelMaker.make_config("SimpleVehicleOnTrack")
        self.conf_v.replace_subtree("vehicle.aero", ModelMaker.make_config("GPAero"))
        self.tree_gp = L.make_model("SimpleVehicle", aero="GPAero").get_recursive_params()
        self.conf_gp = ModelMaker.make_config("SimpleVehicle")
        self.conf_gp.replace_subtree("aero", ModelMaker.make_config("GPAero"))
        self.tracks = [S.Track(i, folder) for i in range(2)]
        self.ltc = LTCConfig(track=self.tracks[0].file, num_intervals=2, backend="casadi", is_cyclic=True)
        self.drone = DroneSimulationConfig(num_intervals=2, backend="casadi", transcription="LGR")
        self.x = {}

    BIG = {"tree_v": ("Laptime",), "conf_v": ("Laptime",), "tree_gp": ("Vehicle",), "conf_gp": ("Vehicle",), "ltc": ("Laptime",)}

    def snapshot(self, agents=None):
        """agents: leave out the large objects that none of these is handed."""
        skip = {k for k, users in self.BIG.items() if agents and not set(users) & set(agents)} | {"tracks", "x", "rec"}
        out = {k: digest(v) for k, v in vars(self).items() if k not in skip}
        out["track files"] = [open(t.file).read() for t in self.tracks]
        return out

    def vector(self, n, k=0):
        """An array of the caller, handed to many calls."""
        if (n, k) not in self.x:
            self.x[(n, k)] = 1.0 + 0.04 * R.generic(n, k + 5)
        return self.x[(n, k)]


# ---- life cycles -----------------------------------------------------------------------------------
class Agent:
    obj = None

    def __init__(self, caller):
        self.c = caller

    def keeps(self, name, change):
        """What the caller does here with objects of its own changes nothing in the object."""
        def look():
            return digest(look_problem(self.obj) if hasattr(self.obj, "num_dec") else self.observe())

        before = look()
        change()
        self.c.rec.check(look() == before, "own-objects", lambda: f"{type(self).__name__}: the object changed with the caller's {name}")

    def look(self):
        return "not built" if self.obj is None else digest(self.observe())

    def observe(self):
        return look_problem(self.obj)

    def evaluate(self):
        p, c = self.obj, self.c
        x, lam = c.vector(p.num_dec), c.vector(p.num_con, 1)
        p.objective(x), p.gradient(x), p.constraints(x), p.jacobian(x), p.hessian(x, lam, 0.6)
        p.objective(c.vector(p.num_dec, 2)), p.constraints(c.vector(p.num_dec, 2)), p.hessian(c.vector(p.num_dec, 2), lam, 1.0)

    def solve(self):
        p, c = self.obj, self.c
        stub.SCRIPT = None
        p.solve(c.vector(p.num_dec), print_level=0, output_file="")


class Free(Agent):
    """Scaled mesh, custom derivatives, parameters given by the caller's tree."""

    def build(self):
        from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

        self.obj = ScaledMeshOCP(model=MM.MODELS["AC"][0](params=self.c.tree_a), sim_config=self.c.free)

    def reconfigure(self):
        p = self.obj
        p.modify_model_param("a", 1.7)
        p.modify_model_param("k", np.array([[1.3, 0.2, 0.1], [0.1, 0.3, -0.5]]))
        p.update_bounds(self.c.bounds[:1])
        p.set_scales(self.c.scales[:1])

    def remesh(self):
        self.obj.set_normalized_mesh(None)
        self.obj.update_boundary_conditions(self.c.bcs[:1])

    script = ("build", "reconfigure", "evaluate", "remesh")


class Fixed(Agent):
    """Fixed mesh, condensed, cyclic, casadi, all from the caller's configuration."""

    def build(self):
        from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP

        self.obj = FixedMeshOCP(model=MM.MODELS["A"][0](params=self.c.tree_a), sim_config=self.c.fixed, mesh_scale=2.0)

    def reconfigure(self):
        p = self.obj
        p.set_mesh_scale(3.5)
        p.modify_model_param("v", np.array([0.4, 0.5]))
        p.update_bounds(self.c.bounds)
        p.update_boundary_conditions(self.c.bcs)
        p.set_scales(())

    def objectives(self):
        from lumos.optimal_control.nlp import BaseObjective

        n = self.obj.num_dec
        self.obj.add_objective("extra", BaseObjective(num_in=n, objective=lambda x: 0.5 * float(x @ x), gradient=lambda x: 1.0 * x, hessian=lambda x: np.ones(n),
                                                      hessian_structure=(np.arange(n), np.arange(n))))
        self.obj.delete_objective("time")

    script = ("build", "reconfigure", "objectives", "evaluate", "solve")


class Defaulted(Agent):
    """Everything left at its default; changed afterwards."""

    def build(self):
        from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

        cfg = ScaledMeshOCP.get_sim_config(num_intervals=2, backend="custom")
        self.obj = ScaledMeshOCP(model=MM.MODELS["AC"][0](), sim_config=cfg)
        self.cfg = cfg

    def observe(self):
        return [look_problem(self.obj), self.cfg]

    def reconfigure(self):
        from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig, ScaleConfig

        self.obj.modify_model_param("a", -0.3)
        self.obj.update_bounds((BoundConfig("states", "q", (-2.0, 2.0)),))
        self.obj.update_boundary_conditions((BoundaryConditionConfig(1, "states", "q", 0.1),))
        self.obj.set_scales((ScaleConfig("states", "q", 3.0),))

    def own_config(self):
        """The configuration objects this agent made are its own."""
        def change():
            self.cfg.non_cyclic_vars.append("states.q")
            self.cfg.num_intervals = 9

        self.keeps("configuration", change)

    script = ("build", "reconfigure", "own_config", "evaluate")


class Tree(Agent):
    """A problem on a composite model; composition from defaults."""

    def build(self):
        from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP

        self.obj = FixedMeshOCP(model=MM.MODELS["C"][0](), sim_config=FixedMeshOCP.get_sim_config(num_intervals=2, backend="casadi", con_output_names=("right.f",)), mesh_scale=1.5)

    def reconfigure(self):
        self.obj.modify_model_param("left.k", 2.2)
        self.obj.modify_model_param("right.g", np.array([0.3, -0.4]))

    def params(self):
        t = self.obj.model.get_recursive_params()
        d = self.obj.model.get_recursive_default_params()
        self.keeps("tree read from the model", lambda: [t.set_param("left.k", 99.0), t.set_param("right.g", np.array([7.0, 8.0]))])
        self.keeps("tree of defaults read from the model", lambda: [d.set_param("left.k", 99.0), d.set_param("right.g", np.array([7.0, 8.0]))])
        self.obj.model.get_submodel("left").forward(dict(d=0.2, v=0.1))

    script = ("build", "reconfigure", "params", "evaluate")


class Vehicle(Agent):
    """A vehicle model with the caller's composition and parameters."""

    def build(self):
        from lumos.models.composition import ModelMaker

        np.random.seed(11)
        self.obj = ModelMaker.make_model_from_config(self.c.conf_gp)

    def observe(self):
        return {**look_model(self.obj, L.nominal("SimpleVehicle")), "defaults": 0}

    def parameters(self):
        self.obj.set_recursive_params(self.c.tree_gp)

    def reconfigure(self):
        t = self.obj.get_recursive_params()
        self.keeps("tree read from the model", lambda: [t.set_param("vehicle_mass", 1111.0), t.set_param("tire_fl.LMUX", 0.8)])
        self.obj.set_recursive_params(t)
        self.keeps("tree given to the model", lambda: [t.set_param("vehicle_mass", 2222.0), t.set_param("tire_fl.LMUX", 0.7)])
        self.obj.set_con_outputs(("ax", "slip_ratio_fl"))

    def evaluate(self):
        s, u, mesh = L.nominal("SimpleVehicle", 2)
        self.obj.apply_and_forward(s, u, mesh, self.c.tree_gp)
        self.obj.get_submodel("tire_rr").set_recursive_params(self.c.tree_gp.get_child("tire_fl"))

    script = ("build", "parameters", "reconfigure", "evaluate")


class Laptime(Agent):
    def build(self):
        from lumos.simulations.laptime_simulation import LaptimeSimulation

        self.obj = LaptimeSimulation(model_params=self.c.tree_v, sim_config=self.c.ltc)

    def observe(self):
        return [look_problem(self.obj), self.obj.get_init_guess()]

    def reconfigure(self):
        self.obj.modify_model_param("vehicle.vehicle_mass", 1300.0)
        self.obj.modify_model_param("vehicle.tire_fl.LMUY", 0.9)
        self.obj.set_track(self.c.tracks[1].file)

    script = ("build", "reconfigure", "evaluate", "solve")


class LaptimeDefault(Laptime):
    """Default parameters, own configuration which is modified before and after building."""

    def build(self):
        from lumos.simulations.laptime_simulation import LaptimeSimulation, LTCConfig

        self.cfg = LTCConfig(track=self.c.tracks[0].file, num_intervals=2, backend="casadi")
        self.obj = LaptimeSimulation(sim_config=self.cfg)

    def own_config(self):
        from lumos.simulations.laptime_simulation import LTCConfig

        self.cfg.non_cyclic_vars.append("states.vx")
        for b in self.cfg.bounds:
            if b.name == "vx":
                b.values = (12.0, 34.0)
        self.cfg.scales[0].value = 123.0
        self.cfg.boundary_conditions[0].value = 1.0
        other = LTCConfig(track="x", is_cyclic=True)
        other.non_cyclic_vars.append("states.n")

    def observe(self):
        from lumos.simulations.laptime_simulation import LTCConfig

        return [look_problem(self.obj), self.obj.get_init_guess(), LTCConfig(track="x")]

    script = ("build", "own_config", "reconfigure", "evaluate")


class Drone(Agent):
    def build(self):
        from lumos.simulations.drone_simulation import DroneSimulation

        self.obj = DroneSimulation(sim_config=self.c.drone)

    def observe(self):
        return [look_problem(self.obj), self.obj.get_init_guess()]

    def reconfigure(self):
        from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig

        self.obj.update_bounds((BoundConfig("inputs", "f", (2.0, 15.0)),))
        self.obj.update_boundary_conditions((BoundaryConditionConfig(-1, "states", "z", 3.0),))

    script = ("build", "reconfigure", "evaluate", "solve")


class DroneDefault(Drone):
    def build(self):
        from lumos.simulations.drone_simulation import DroneSimulation, DroneSimulationConfig

        self.cfg = DroneSimulationConfig(num_intervals=2, backend="casadi")
        self.obj = DroneSimulation(sim_config=self.cfg)

    def own_config(self):
        def change():
            for b in self.cfg.bounds:
                b.values = (b.values[0] / 2, b.values[1] / 2)
            self.cfg.boundary_conditions[7].value = 8.0

        self.keeps("configuration", change)

    script = ("build", "own_config", "reconfigure", "evaluate")


class Solver(Agent):
    """Model solver on its own model."""

    def build(self):
        from lumos.optimal_control.model_solver import ModelSolver

        from lumos.optimal_control.nlp import BaseObjective

        p = self.obj = ModelSolver(MM.MODELS["AR"][0](params=self.c.tree_a), backend="casadi", con_outputs=["o1"])
        n = p.num_dec
        p.add_objective("size", BaseObjective(num_in=n, objective=lambda x: 0.5 * float(x @ x), gradient=lambda x: 1.0 * x, hessian=lambda x: np.ones(n),
                                              hessian_structure=(np.arange(n), np.arange(n))))

    def reconfigure(self):
        self.obj.lb[1], self.obj.ub[1] = -1.0, 1.0

    script = ("build", "evaluate", "reconfigure", "solve")


AGENTS = {c.__name__: c for c in (Free, Fixed, Defaulted, Tree, Vehicle, Laptime, LaptimeDefault, Drone, DroneDefault, Solver)}
SLOW = ("Laptime", "LaptimeDefault")
SLOW_PAIRS = {("Laptime", "Laptime"), ("Laptime", "LaptimeDefault"), ("LaptimeDefault", "LaptimeDefault"), ("Vehicle", "Laptime"), ("Free", "Laptime"),
              ("Laptime", "Drone"), ("Defaulted", "LaptimeDefault"), ("LaptimeDefault", "DroneDefault")}
CHEAP = ("Free", "Fixed", "Defaulted", "Tree", "Drone", "Solver")


def interleavings(lengths):
    def rec(rest, done):
        if not any(rest):
            yield tuple(done)
            return
        for i, n in enumerate(rest):
            if n:
                rest[i] -= 1
                done.append(i)
                yield from rec(rest, done)
                done.pop()
                rest[i] += 1

    yield from rec(list(lengths), [])


def units(tier):
    quick = tier == "quick"
    out = []
    names = list(AGENTS)
    for a, b in itertools.combinations_with_replacement(names, 2):
        slow = a in SLOW or b in SLOW
        if quick and slow and (a, b) not in SLOW_PAIRS:
            continue
        out.append(dict(kind="interleave", agents=[a, b], cut=(3 if slow else 4) if quick else 9))
    if not quick:
        for t in itertools.combinations_with_replacement(CHEAP, 3):
            out.append(dict(kind="interleave", agents=list(t), cut=3))
    else:
        for t in (("Free", "Free", "Defaulted"), ("Fixed", "Tree", "Tree"), ("Solver", "Fixed", "Drone")):
            out.append(dict(kind="interleave", agents=list(t), cut=2))
    out.append(dict(kind="classes"))
    return out


UNIT_TIMEOUT = 800


def run_unit(unit, rec):
    import tempfile

    with tempfile.TemporaryDirectory(dir=core.scratch_dir()) as d:
        dict(interleave=run_interleave, classes=run_classes)[unit["kind"]](unit, rec, str(d))


def act(agent, k):
    np.random.seed(100 + k)
    getattr(agent, agent.script[k])()


def solitary(cls, caller, n):
    a = cls(caller)
    out = ["not built"]
    for k in range(n):
        act(a, k)
        out.append(a.look())
    return out


def run_interleave(unit, rec, folder):
    caller = Caller(folder)
    caller.rec = rec
    before = caller.snapshot()
    classes = [AGENTS[n] for n in unit["agents"]]
    lens = [min(len(c.script), unit.get("cut", 99)) for c in classes]
    base = []
    for c, n in zip(classes, lens):
        rec.at(dict(agents=unit["agents"], alone=c.__name__))
        base.append(solitary(c, caller, n))
        for again in range(2):
            got = solitary(c, caller, n)
            for k, (g, w) in enumerate(zip(got, base[-1])):
                rec.check(g == w, "repeat", lambda: f"{c.__name__} after {c.script[:k]}: a second run of the same life cycle gives another result")
        untouched(caller, before, rec)
    for j, order in enumerate(interleavings(lens)):
        agents = [c(caller) for c in classes]
        pos = [0] * len(agents)
        done = []
        for i in order:
            done.append(f"{i}:{agents[i].script[pos[i]]}")
            rec.at(dict(agents=unit["agents"], steps=list(done)))
            act(agents[i], pos[i])
            pos[i] += 1
            rec.transition()
            if j % 2 == 0 or len(done) == len(order):  # looking on every step, or only at the end
                now = [a.look() for a in agents]
                for q, a in enumerate(agents):
                    rec.check(now[q] == base[q][pos[q]], "interference", lambda: f"agent {q} ({unit['agents'][q]}) at step {pos[q]} differs from its solitary run, after {done}: "
                              + difference(classes[q], caller, a, pos[q]))
                rec.state([unit["agents"], tuple(pos), now])
            untouched(caller, before, rec, unit["agents"])
        if j % 16 == 0:
            untouched(caller, before, rec)
        rec.trace()
    untouched(caller, before, rec)
    rec.outcome("interleavings of " + str(len(classes)))


def difference(cls, caller, a, n):
    b = cls(caller)
    for k in range(n):
        act(b, k)
    if a.obj is None or b.obj is None:
        return "not built"
    x, y = plain(a.observe()), plain(b.observe())

    def walk(u, v, path):
        if u == v:
            return []
        if isinstance(u, tuple) and isinstance(v, tuple) and len(u) == len(v):
            return [d for i, (p, q) in enumerate(zip(u, v)) for d in walk(p, q, path + [u[0] if i and isinstance(u[0], str) else i])]
        return ["/".join(map(str, path))[-80:] + f": {str(u)[:60]} vs {str(v)[:60]}"]

    return "; ".join(walk(x, y, [])[:3]) or "(a fresh solitary run now gives the same: the process was altered)"


def untouched(caller, before, rec, agents=None):
    now = caller.snapshot(agents)
    for k, v in now.items():
        rec.check(v == before[k], "caller", lambda: f"the caller's {k} was changed")
    for (n, k), x in caller.x.items():
        rec.check(bool(np.all(x == 1.0 + 0.04 * R.generic(n, k + 5))), "caller-x", "an array handed to an evaluation was changed")


def run_classes(unit, rec, folder):
    """Defining, registering and configuring new models leaves the existing ones alone."""
    from lumos.models.base import Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io
    from lumos.models.composition import ModelMaker

    L.register()
    names = ["SimpleVehicle", "SimpleVehicleOnTrack", "TrackPosition2D", "PerantoniTire", "MF52", "ConstAero", "GPAero", "MLPAero"]

    def world():
        out = {}
        for n in names:
            np.random.seed(2)
            cls = ModelMaker.get_model_class(n)
            m = ModelMaker.make_model_from_name(n)
            out[n] = digest([[g, cls.get_direct_group_names(g)] for g in ("inputs", "outputs")] + [list(map(tuple, m.names)), m.get_recursive_params(), ModelMaker.make_config(n)])
        for k in ("A", "B", "C"):
            m = MM.MODELS[k][0]()
            out[k] = digest([list(map(tuple, m.names)), m.get_recursive_params(), m.get_recursive_default_params()])
        return out

    before = world()

    def subclass():
        @state_space_io(states=("time", "zz"), inputs=("w",), outputs=("o9",))
        class Sub(MM.MODELS["A"][0]):
            def forward(self, states, inputs, mesh):
                return StateSpaceModelReturn(states_dot=dict(time=1.0, zz=inputs["w"]), outputs=dict(o9=states["zz"]))

            def get_default_params(self):
                return {"a": 3.0}

        m = Sub()
        rec.check(tuple(m.names.states) == ("time", "zz"), "subclass", f"names of the subclass: {m.names}")

    def registered():
        @model_io(inputs=("a",), outputs=("b",))
        class OtherAero(Model):
            def forward(self, inputs):
                return ModelReturn(outputs=dict(b=inputs["a"]))

        ModelMaker.add_to_registry(OtherAero)
        ModelMaker.make_config("OtherAero")
        ModelMaker.remove_from_registry(OtherAero)

    def own_config():
        c = ModelMaker.make_config("SimpleVehicleOnTrack")
        c.replace_subtree("vehicle.aero", ModelMaker.make_config("GPAero"))
        ModelMaker.make_model_from_config(c)

    def own_params():
        for n in names:
            m = ModelMaker.make_model_from_name(n)
            t = m.get_recursive_params()
            for path, v in L.leaves(t):
                t.set_param(path, np.asarray(v, float) * 1.5)
            m.set_recursive_params(t)

    def con_outputs():
        m = ModelMaker.make_model_from_name("SimpleVehicle")
        m.set_con_outputs(("ax",))
        m = MM.MODELS["A"][0]()
        m.set_con_outputs(("o2",))

    def constraints():
        for k in ("A", "B"):
            m = MM.MODELS[k][0]()
            m.set_con_outputs(())
            m.make_model_algebra_cons(backend="casadi")

    steps = [subclass, registered, own_config, own_params, con_outputs, constraints]
    for order in itertools.permutations(steps, 3):
        for s in order:
            rec.at([f.__name__ for f in order])
            s()
            after = world()
            for k in before:
                rec.check(after[k] == before[k], "class", lambda: f"{k} (new instance) changed by {s.__name__}")
            rec.transition()
        rec.trace()
    assert StateSpaceModel is not None and os.path.exists(folder)
