"""C21: simulations of a given track and vehicle against independently stated problems."""
import itertools
import os

import numpy as np

from mc import stub

stub.install()

from mc import core  # noqa: E402
from mc import ref as R  # noqa: E402
from mc.checks import c20_tracks as T  # noqa: E402

CHECK = dict(
    id="C21",
    level="model_checking",
    technique="exhaustive enumeration of simulation configurations, and explicit-state exploration of all sequences of track switches, "
    "mesh, bound, boundary condition and scale statements on the real simulation objects in lockstep with an independently stated problem",
    rule="all combinations of track, scheme, mesh, cyclicity, condensation and constrained outputs; all sequences of statements up to the "
    "depth bound on fresh simulations; states are the tables of statements in effect, a trace is one sequence replayed",
    assumptions=["the vehicle and drone equations themselves are the subject of C24 and are taken from the library here",
                 "bounds reach the solver through the arguments of cyipopt.Problem"],
    note="Every configuration and every sequence within the bounds is compared: mesh, bounds, scales, constraints, objective, initial guess; derivatives for a fixed part.",
)
STATES = ("time", "n", "eta", "vx", "vy", "yaw_rate", "wheel_speed_fl", "wheel_speed_fr", "wheel_speed_rl", "wheel_speed_rr")
INPUTS = ("throttle", "brake", "steer", "ax", "ay", "track_curvature", "track_heading")
SLIPS = tuple(f"vehicle.slip_{k}_{c}" for k in ("ratio", "angle") for c in ("fl", "fr", "rl", "rr"))
RES = ("vehicle.res_ax", "vehicle.res_ay")
PI = np.pi
BOUNDS = {("states", "time"): (0, np.inf), ("states", "eta"): (-PI / 4, PI / 4), ("states", "vx"): (5, 100), ("states", "vy"): (-10, 10),
          ("states", "yaw_rate"): (-2 * PI, 2 * PI), ("inputs", "throttle"): (0, 1), ("inputs", "brake"): (0, 1), ("inputs", "steer"): (-1, 1),
          **{("states", n): (0.1, 300) for n in STATES[6:]}, **{("con_outputs", n): (-0.05, 0.05) for n in SLIPS[:4]},
          **{("con_outputs", n): (-5 * PI / 180, 5 * PI / 180) for n in SLIPS[4:]}}
SCALES = {("states", "time"): 10.0, ("states", "vx"): 10.0, **{(g, n): 50.0 for g in ("states", "states_dot") for n in STATES[6:]}}
SCHEMES = [("Trapezoidal", "Trapezoidal", 2), (("LGR", {"num_stages": 3}), "LGR", 3), (("LGRIntegral", {"num_stages": 3}), "LGRIntegral", 3)]
MESHES = [None, np.array([0.0, 0.2, 0.85, 1.0]), np.array([0.0, 0.45, 0.5, 1.0])]
NI = 3


def track_data(i):
    if i == 0:
        a = np.linspace(0.0, 2.2, 9)
        x, y = 7 * np.cos(a), 7 * np.sin(a)
    elif i == 1:
        x = np.linspace(0, 300, 16) + 3 * np.sin(np.arange(16))
        y = 25 * np.sin(x / 45)
    else:
        a = np.linspace(0, 2 * PI, 31)
        x, y = 200 * np.cos(a) + 20 * np.cos(3 * a), -120 * np.sin(a)
    n = len(x)
    x, y = np.round(x, 6), np.round(y, 6)
    return x, y, np.round(4 + i + 0.5 * np.cos(np.arange(n)), 6), np.round(3 + i + 0.5 * np.sin(np.arange(n)), 6)


class Track:
    def __init__(self, i, folder):
        x, y, right, left = track_data(i)
        self.file = os.path.join(folder, f"track_{i}.csv")
        with open(self.file, "w") as f:
            f.write("# x_m,y_m,w_tr_right_m,w_tr_left_m\n")
            f.writelines(",".join(repr(float(v)) for v in row) + "\n" for row in zip(x, y, right, left))
        self.s, self.k, self.h = T.geometry(x, y)
        self.right, self.left = right, left

    def sample(self, mesh):
        """curvature, heading and width bounds at normalised positions."""
        q = np.array(mesh) * self.s[-1]
        f = lambda d: np.array([T.at(v, self.s, d) for v in q])  # noqa: E731
        return {("inputs", "track_curvature"): (f(self.k), f(self.k)), ("inputs", "track_heading"): (f(self.h), f(self.h)),
                ("states", "n"): (-f(self.right), f(self.left))}


_FUN = {}



def library_math(name, states, inputs, outs, mass=None):
    """The model equations of the library as a function for RefOCP."""
    import casadi as cas
    import lumos.numpy as lnp
    from mc import libmodels

    key = (name, tuple(outs), mass)
    if key not in _FUN:
        m = libmodels.make_model(name)
        if mass:
            tree = m.get_recursive_params()
            tree.set_param("vehicle.vehicle_mass", mass)
            m.set_recursive_params(tree)
        xs, us = cas.SX.sym("x", len(states)), cas.SX.sym("u", len(inputs))
        with lnp.use_backend("casadi"):
            r = m.forward({n: xs[i] for i, n in enumerate(states)}, {n: us[i] for i, n in enumerate(inputs)}, 0.0)
        _FUN[key] = cas.Function("f", [xs, us], [cas.vertcat(*[r.states_dot[n] for n in states]), cas.vertcat(*[r.outputs[n] for n in outs])])

    def math(ns, x, u, mesh, params):
        f, y = _FUN[key](cas.vertcat(*[x[n] for n in states]), cas.vertcat(*[u[n] for n in inputs]))
        return {n: f[i] for i, n in enumerate(states)}, {n: y[i] for i, n in enumerate(outs)}

    return math


class World:
    def __init__(self, folder):
        self.tracks = [Track(i, folder) for i in range(3)]
        self.refs = {}

    def ref(self, cfg, track, mesh, scales, mass=None):
        """mesh: index into MESHES."""
        key = (cfg["scheme"], track, mesh, tuple(sorted(scales.items())), str(cfg["cyclic"]), cfg["condensed"], tuple(cfg["outs"]), mass)
        if key not in self.refs:
            if len(self.refs) > 40:
                self.refs.clear()
            names = dict(states=STATES, inputs=INPUTS, con_outputs=tuple(cfg["outs"]), residuals=RES)
            _, scheme, ns = SCHEMES[cfg["scheme"]]
            cyc = cfg["cyclic"]
            if cyc is not None:
                free = {"states.time", "inputs.track_heading", *cyc}
                cyc = [g for g in [f"states.{n}" for n in STATES] + [f"inputs.{n}" for n in INPUTS] if g not in free]
            pts = np.linspace(0, 1, NI + 1) if MESHES[mesh] is None else MESHES[mesh]
            N = NI * (ns - 1) + 1
            self.refs[key] = R.RefOCP(names, library_math("SimpleVehicleOnTrack", STATES, INPUTS, tuple(cfg["outs"]) + RES, mass), {}, pts, scheme, ns,
                                      mesh_scale=float(self.tracks[track].s[-1]), cyclic=cyc, condensed=cfg["condensed"], scales=scales,
                                      extra_objective=lambda var, m, s: sum(var("inputs", "steer", st) ** 2 for st in range(N)) / N)
        return self.refs[key]


class Table:
    """What has been stated, last statement wins."""

    def __init__(self, cfg, world):
        self.cfg, self.w = cfg, world
        self.bounds = dict(BOUNDS) if cfg["bounds"] == "default" else {(g, n): tuple(v) for g, n, *v in cfg["bounds"]}
        self.scales = dict(SCALES) if cfg["scales"] == "default" else {(g, n): v for g, n, v in cfg["scales"]}
        self.bc = {}
        _, scheme, ns = SCHEMES[cfg["scheme"]]
        self.interp = R.scheme_matrices(scheme, ns)[0]
        self.N = NI * (ns - 1) + 1
        for st, g, n, v in [[0, "states", "time", 0.0]] if cfg["bcs"] == "default" else cfg["bcs"]:
            self.bc[(g, n, st % self.N)] = v
        self.track, self.mesh = cfg["track"], cfg["mesh"]
        self.restate()

    def positions(self):
        pts = np.linspace(0, 1, NI + 1) if MESHES[self.mesh] is None else MESHES[self.mesh]
        return R.stage_mesh(pts, self.interp)

    def restate(self):
        self.bounds.update(self.w.tracks[self.track].sample(self.positions()))

    def apply(self, op):
        k, a = op
        if k == "track":
            self.track = a
            self.restate()
        elif k == "mesh":
            self.mesh = a
            self.restate()
        elif k == "bounds":
            for g, n, lo, hi in a:
                self.bounds[(g, n)] = (lo, hi)
        elif k == "bc":
            for st, g, n, v in a:
                self.bc[(g, n, st % self.N)] = v
        elif k == "scales":
            self.scales = {(g, n): v for g, n, v in a}

    def key(self):
        return [self.track, self.mesh, sorted((k, str(v)) for k, v in self.bounds.items()), sorted(self.bc.items()), sorted(self.scales.items())]

    def ref(self):
        return self.w.ref(self.cfg, self.track, self.mesh, self.scales, self.cfg.get("mass"))


def configs(kind, a):
    from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig, ScaleConfig

    if kind == "bounds":
        return tuple(BoundConfig(g, n, (lo, hi)) for g, n, lo, hi in a)
    if kind == "bc":
        return tuple(BoundaryConditionConfig(*b) for b in a)
    return tuple(ScaleConfig(*b) for b in a)


def build(cfg, world, **more):
    from lumos.simulations.laptime_simulation import LaptimeSimulation, LTCConfig

    kw = dict(track=world.tracks[cfg["track"]].file, num_intervals=NI, interval_points=MESHES[cfg["mesh"]], transcription=SCHEMES[cfg["scheme"]][0],
              is_cyclic=cfg["cyclic"] is not None, non_cyclic_vars=list(cfg["cyclic"] or []), is_condensed=cfg["condensed"], backend=cfg.get("backend", "casadi"))
    if cfg["outs"] != SLIPS:
        kw["con_output_names"] = tuple(cfg["outs"])
    for name, field, kind in (("bounds", "bounds", "bounds"), ("bcs", "boundary_conditions", "bc"), ("scales", "scales", "scales")):
        if cfg[name] != "default":
            kw[field] = configs(kind, cfg[name])
    kw.update(more)
    np.random.seed(7)
    args = {}
    if cfg.get("mass"):
        from mc import libmodels

        tree = libmodels.make_model("SimpleVehicleOnTrack").get_recursive_params()
        tree.set_param("vehicle.vehicle_mass", cfg["mass"])
        args["model_params"] = tree
    return LaptimeSimulation(sim_config=LTCConfig(**kw), **args)


def point(ref, k):
    """A driving-like point, scaled."""
    x = np.zeros(ref.n)
    base = dict(time=3.0, n=0.5, eta=0.05, vx=42.0, vy=0.4, yaw_rate=0.2, throttle=0.4, brake=0.15, steer=0.2, ax=1.5, ay=3.0,
                track_curvature=0.01, track_heading=0.6, **{n: 125.0 for n in STATES[6:]})
    g = R.generic(ref.n, k)
    for st in range(ref.N):
        for grp in R.GROUPS:
            for n in ref.names[grp]:
                i = ref.index(grp, n, st)
                x[i] = base[n] * (1 + 0.06 * g[i]) + 0.02 * g[i] if grp in ("states", "inputs") else 3 * g[i]
    return x / ref.s


def expected_bounds(ref, table):
    lb, ub = np.full(ref.n, -np.inf), np.full(ref.n, np.inf)
    if table.cfg["condensed"]:  # derivatives are no longer decided upon
        for n in STATES:
            for st in range(ref.N):
                i = ref.index("states_dot", n, st)
                lb[i] = ub[i] = 0.0
    for (g, n), (lo, hi) in table.bounds.items():
        for st in range(ref.N):
            i = ref.index(g, n, st)
            lb[i], ub[i] = (v if np.ndim(v) == 0 else v[st] for v in (lo, hi))
    for (g, n, st), v in table.bc.items():
        lb[ref.index(g, n, st)] = ub[ref.index(g, n, st)] = v
    return lb, ub


def compare(p, table, rec, deep):
    ref = table.ref()
    tr = table.w.tracks[table.track]
    rec.check(p.num_dec == ref.n, "size", f"{p.num_dec} decision variables, expected {ref.n}")
    rec.close(p.distance_mesh, table.positions() * tr.s[-1], "mesh", "distances of the stages")
    rec.close(p.get_mesh(), table.positions() * tr.s[-1], "mesh", "mesh of the problem")
    lb, ub = expected_bounds(ref, table)
    rec.close(p.lb, lb, "lb", "lower bounds", 1e-9, 1e-11)
    rec.close(p.ub, ub, "ub", "upper bounds", 1e-9, 1e-11)
    st = stub.seen(p, print_level=0, output_file="")
    rec.close(st.lb, lb / ref.s, "solver-lb", "lower bounds handed to the solver", 1e-9, 1e-11)
    rec.close(st.ub, ub / ref.s, "solver-ub", "upper bounds handed to the solver", 1e-9, 1e-11)
    x = point(ref, 1)
    R.compare_values(p, ref, x, rec, "sim ", rtol=1e-8, atol=1e-8)
    if deep:
        R.compare_first(p, ref, x, rec, "sim ", rtol=1e-7, atol=1e-7)
        if deep > 1:
            lam = R.generic(ref.m, 4)
            R.compare_second(p, ref, x, lam, 1.7, rec, "sim ", rtol=1e-6, atol=1e-6)
    guess(p, ref, table, tr, rec)


def guess(p, ref, table, tr, rec):
    x = np.asarray(p.get_init_guess(), float)
    rec.check(x.shape == (ref.n,), "guess", f"initial guess of shape {x.shape}")
    d = table.positions() * tr.s[-1]
    track = tr.sample(table.positions())
    want = {("states", "time"): d / 50, ("states", "vx"): 50 + 0 * d, **{("inputs", n): 0 * d for n in INPUTS[:5]},
            ("states", "n"): 0 * d, ("states", "eta"): 0 * d, ("states", "vy"): 0 * d, ("states", "yaw_rate"): 0 * d,
            **{("states", n): 50 / 0.33 + 0 * d for n in STATES[6:]}, ("inputs", "track_curvature"): track[("inputs", "track_curvature")][0],
            ("inputs", "track_heading"): track[("inputs", "track_heading")][0]}
    for (g, n), v in want.items():
        got = [x[ref.index(g, n, st)] for st in range(ref.N)]
        rec.close(got, v, "guess", f"initial guess of {g}.{n}", 1e-9, 1e-10)
    # derivatives and constrained outputs of the guess are those of the model
    other = table.w.ref(dict(table.cfg, condensed=False, cyclic=None), table.track, table.mesh, {}, table.cfg.get("mass"))
    c = other.split(other.cons(x))["model_algebra"].reshape(ref.N, -1)
    keep = c[:, : len(STATES) + len(ref.names["con_outputs"])]
    rec.close(keep, 0 * keep, "guess", "model equations at the initial guess", atol=1e-7)


CUSTOM = dict(outs=("vehicle.ax", "vehicle.slip_angle_rl"), bounds=[["states", "n", -200.0, 200.0], ["states", "vx", 10.0, 80.0], ["con_outputs", "vehicle.ax", -20.0, 15.0]],
              scales=[["states", "time", 7.0], ["inputs", "steer", 0.1], ["states", "n", 3.0], ["con_outputs", "vehicle.ax", 20.0]],
              bcs=[[0, "states", "time", 0.0], [0, "states", "n", 0.4], [-1, "states", "n", -0.4], [0, "states", "vx", 44.0]], mass=1234.5)
DEFAULT = dict(outs=SLIPS, bounds="default", scales="default", bcs="default")


def units(tier):
    quick = tier == "quick"
    out = []
    for sch, mesh in ((0, 0), (0, 1), (1, 1), (2, 0)) if quick else itertools.product(range(3), range(3)):
        for cond in (False, True):
            out.append(dict(kind="configs", scheme=sch, mesh=mesh, condensed=cond))
    for sch, cond, cyc in ((0, False, None), (1, True, []), (2, False, ["states.n"])):
        for part in range(3 if quick else 24):
            out.append(dict(kind="history", scheme=sch, condensed=cond, cyclic=cyc, part=part, parts=3 if quick else 24, depth=2 if quick else 3))
        for part in range(3 if quick else 8):
            out.append(dict(kind="walk", scheme=sch, condensed=cond, cyclic=cyc, part=part, parts=3 if quick else 8, order=3 if quick else 4))
    out += [dict(kind="drone", condensed=c) for c in (False, True)]
    out += [dict(kind="misc"), dict(kind="files")]
    if not quick:
        out.append(dict(kind="jax"))
    return out


UNIT_TIMEOUT = 800


def run_unit(unit, rec):
    import tempfile

    with tempfile.TemporaryDirectory(dir=core.scratch_dir()) as d:
        dict(configs=run_configs, history=run_history, walk=run_walk, drone=run_drone, misc=run_misc, jax=run_jax, files=run_files)[unit["kind"]](unit, rec, World(str(d)))


def run_configs(unit, rec, w):
    for track, cyc, what in itertools.product(range(3), (None, [], ["states.n", "states.time"]), (DEFAULT, CUSTOM)):
        cfg = dict(what, track=track, cyclic=cyc, scheme=unit["scheme"], mesh=unit["mesh"], condensed=unit["condensed"])
        rec.at({k: v for k, v in cfg.items() if k != "outs"})
        p = build(cfg, w)
        compare(p, Table(cfg, w), rec, 2 if track == 1 else 1)
        rec.nontrivial(str(cfg))
        rec.outcome("configurations")


def ops(w):
    return [("track", 0), ("track", 1), ("track", 2), ("mesh", 1), ("mesh", 0), ("bounds", [["states", "n", -1.0, 1.5], ["inputs", "track_curvature", -0.5, 0.5]]),
            ("bc", [[0, "states", "n", 0.25], [-1, "states", "vx", 30.0]]), ("scales", [["states", "vx", 20.0], ["inputs", "steer", 0.2]]),
            ("missing", None), ("badmesh", None)]


def perform(p, op, w, rec):
    k, a = op
    if k == "track":
        p.set_track(w.tracks[a].file)
    elif k == "mesh":
        p.set_normalized_mesh(MESHES[a])
    elif k == "bounds":
        p.update_bounds(configs(k, a))
    elif k == "bc":
        p.update_boundary_conditions(configs(k, a))
    elif k == "scales":
        p.set_scales(configs(k, a))
    elif k == "missing":
        rec.expect_raises(lambda: p.set_track(os.path.join(os.path.dirname(w.tracks[0].file), "no_such_track.csv")), "missing", "a track file that does not exist")
    elif k == "badmesh":
        rec.expect_raises(lambda: p.set_normalized_mesh(np.array([0.0, 0.6, 0.5, 1.0])), "badmesh", "a mesh that is not increasing")


def run_history(unit, rec, w):
    cfg = dict(DEFAULT, track=0, cyclic=unit["cyclic"], scheme=unit["scheme"], mesh=0, condensed=unit["condensed"])
    al = ops(w)
    seqs = [q for n in range(1, unit["depth"] + 1) for q in itertools.product(al, repeat=n)]
    for j, seq in enumerate(seqs):
        if j % unit["parts"] != unit["part"]:
            continue
        rec.at(dict(scheme=unit["scheme"], condensed=unit["condensed"], statements=seq))
        p = build(cfg, w)
        t = Table(cfg, w)
        if j % 2:  # an evaluation in between must not matter
            p.constraints(point(t.ref(), 2))
            p.get_init_guess()
        for op in seq:
            perform(p, op, w, rec)
            t.apply(op)
            rec.transition()
        compare(p, t, rec, 1 if j % 5 == 0 else 0)
        rec.state(t.key())
        rec.trace()
    rec.bounds.update(depth=unit["depth"], operations=len(al))


def de_bruijn(k, n):
    """Every word of length n over range(k) occurs once in the returned cyclic sequence."""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, k):
            a[t] = j
            db(t + 1, t)

    db(1, 1)
    return seq


def run_walk(unit, rec, w):
    """One long-lived simulation per part; every window of statements of the given length occurs."""
    cfg = dict(DEFAULT, track=0, cyclic=unit["cyclic"], scheme=unit["scheme"], mesh=0, condensed=unit["condensed"])
    al = ops(w)
    n = unit["order"]
    seq = de_bruijn(len(al), n)
    size = -(-len(seq) // unit["parts"])
    a = unit["part"] * size
    mine = [seq[i % len(seq)] for i in range(a, min(a + size, len(seq)) + n - 1)]
    p, t = build(cfg, w), Table(cfg, w)
    done = []
    for j, o in enumerate(mine):
        done.append(o)
        rec.at(dict(scheme=unit["scheme"], condensed=unit["condensed"], operations="indices into ops()", statements=list(done)))
        perform(p, al[o], w, rec)
        t.apply(al[o])
        rec.transition()
        compare(p, t, rec, 1 if j % 7 == 0 else 0)
        rec.state(t.key())
    rec.trace()
    rec.outcome("windows", len(mine) - n + 1)
    rec.bounds.update(window=n)


DS, DI = ("x", "x_dot", "z", "z_dot", "theta"), ("f", "omega")
DB = {**{("states", n): (-50, 50) for n in DS[:4]}, ("states", "theta"): (-10 * PI, 10 * PI), ("inputs", "f"): (1, 20), ("inputs", "omega"): (-10, 10)}
DBC = {**{("states", n, 0): 0.0 for n in DS}, **{("states", n, -1): 0.0 for n in DS}, ("states", "z", -1): 5.0, ("states", "theta", -1): 2 * PI}


def run_drone(unit, rec, w):
    from lumos.simulations.drone_simulation import DroneSimulation, DroneSimulationConfig

    for (tr, scheme, ns), mesh, outs, backend in itertools.product(SCHEMES, MESHES, (("sin_theta",), ()), ("casadi",)):
        rec.at(dict(transcription=tr, mesh=None if mesh is None else mesh.tolist(), condensed=unit["condensed"], outs=outs))
        np.random.seed(7)
        kw = {} if outs else dict(con_output_names=())
        p = DroneSimulation(sim_config=DroneSimulationConfig(num_intervals=NI, interval_points=mesh, transcription=tr, is_condensed=unit["condensed"], backend=backend, **kw))
        pts = np.linspace(0, 1, NI + 1) if mesh is None else mesh
        names = dict(states=DS, inputs=DI, con_outputs=outs, residuals=())
        refs = [R.RefOCP(names, library_math("DroneModel", DS, DI, outs), {}, pts, scheme, ns, condensed=c) for c in (unit["condensed"], False)]
        ref = refs[0]
        rec.check(p.num_dec == ref.n, "drone-size", f"{p.num_dec} decision variables, expected {ref.n}")
        x = R.gen_point(ref, 2)
        R.compare_values(p, ref, x, rec, "drone ")
        R.compare_first(p, ref, x, rec, "drone ")
        R.compare_second(p, ref, x, R.generic(ref.m, 5), 0.7, rec, "drone ")
        lb, ub = np.full(ref.n, -np.inf), np.full(ref.n, np.inf)
        if unit["condensed"]:
            for n, st in itertools.product(DS, range(ref.N)):
                lb[ref.index("states_dot", n, st)] = ub[ref.index("states_dot", n, st)] = 0.0
        for (g, n), v in DB.items():
            for st in range(ref.N):
                lb[ref.index(g, n, st)], ub[ref.index(g, n, st)] = v
        lb[-1], ub[-1] = 0.1, 50
        for (g, n, st), v in DBC.items():
            lb[ref.index(g, n, st)] = ub[ref.index(g, n, st)] = v
        rec.close(p.lb, lb, "drone-lb", "lower bounds of the drone", 1e-12, 1e-12)
        rec.close(p.ub, ub, "drone-ub", "upper bounds of the drone", 1e-12, 1e-12)
        rec.close(p.get_total_time(x), x[-1], "drone-time", "total time", 1e-12)
        g = np.asarray(p.get_init_guess(), float)
        rec.check(g.shape == (ref.n,) and g[-1] > 0, "drone-guess", f"guess of shape {g.shape}")
        c = refs[1].split(refs[1].cons(g))["model_algebra"]
        rec.close(c, 0 * c, "drone-guess", "model equations at the initial guess", atol=1e-9)
        rec.nontrivial((str(tr), str(mesh), outs))


def run_misc(unit, rec, w):
    from lumos.simulations.laptime_simulation import LTCConfig

    rec.at("configuration")
    rec.expect_raises(lambda: LTCConfig(num_intervals=3), "no-track", "a laptime configuration without a track", (ValueError,))
    for given in ([], ["states.n"], ["states.time"], ["inputs.track_heading", "states.vx"], ["states.time", "inputs.track_heading"]):
        mine = list(given)
        c = LTCConfig(track="t.csv", is_cyclic=True, non_cyclic_vars=mine)
        rec.check(mine == given, "callers-list", f"the caller's list of non-cyclic variables became {mine}")
        rec.check(sorted(c.non_cyclic_vars) == sorted({*given, "states.time", "inputs.track_heading"}), "non-cyclic", f"{given} became {c.non_cyclic_vars}")
    c = LTCConfig(track="t.csv", is_cyclic=True)
    rec.check(sorted(c.non_cyclic_vars) == ["inputs.track_heading", "states.time"], "non-cyclic", f"default {c.non_cyclic_vars}")
    # several simulations at once
    cfgs = [dict(DEFAULT, track=t, cyclic=None, scheme=s, mesh=m, condensed=False) for t, s, m in ((0, 0, 0), (1, 0, 1), (2, 1, 0))]
    sims = [(build(c, w), Table(c, w)) for c in cfgs]
    al = ops(w)
    for i, op in itertools.product(range(3), al):
        rec.at(dict(simulation=i, statement=op))
        perform(sims[i][0], op, w, rec)
        sims[i][1].apply(op)
        for p, t in sims:
            compare(p, t, rec, 0)
        rec.transition()
        rec.trace()


def run_files(unit, rec, w):
    """Every track of the repository, by the library's reader and by an independent one."""
    import csv
    import glob

    import lumos

    root = os.path.dirname(os.path.dirname(os.path.abspath(lumos.__file__)))
    files = sorted(glob.glob(os.path.join(root, "data", "tracks", "*.csv")))
    cfg = dict(DEFAULT, track=0, cyclic=[], scheme=0, mesh=0, condensed=False)
    p = build(cfg, w)
    t = Table(cfg, w)
    for f in files:
        rec.at(os.path.basename(f))
        with open(f) as fh:
            rows = list(csv.reader(fh))
        cols = [c.strip().lstrip("#").strip() for c in rows[0]]
        data = {c: np.array([float(r[i]) for r in rows[1:]]) for i, c in enumerate(cols)}
        if "x_m" not in data:
            continue
        tr = Track.__new__(Track)
        tr.file = f
        tr.s, tr.k, tr.h = T.geometry(data["x_m"], data["y_m"])
        tr.right, tr.left = data["w_tr_right_m"], data["w_tr_left_m"]
        w.tracks.append(tr)
        p.set_track(f)
        t.apply(("track", len(w.tracks) - 1))
        compare(p, t, rec, 0)
        rec.nontrivial(f)
        rec.outcome("track files")


def run_jax(unit, rec, w):
    cfg = dict(DEFAULT, track=0, cyclic=[], scheme=0, mesh=0, condensed=False, backend="jax")
    p, t = build(cfg, w), Table(cfg, w)
    for seq in ([], [("track", 1)], [("mesh", 1)], [("track", 2), ("scales", [["states", "vx", 20.0]])]):
        rec.at(dict(backend="jax", statements=seq))
        for op in seq:
            perform(p, op, w, rec)
            t.apply(op)
            rec.transition()
        compare(p, t, rec, 0)
        rec.trace()
