"""C28: configurations: acceptance, refusal, and the dictionary round trip."""
import copy
import itertools

import numpy as np

from mc import stub

stub.install()

from mc import models as M  # noqa: E402
from mc import ref as R  # noqa: E402

CHECK = dict(
    id="C28",
    level="exploration",
    technique="exhaustive enumeration of configurations: every single malformed statement alone, on top of every well-formed variation and in pairs must be "
    "refused by the real classes; every combination of well-formed variations up to the bound must build, round-trip through its dictionary form "
    "and build the same problem again",
    rule="all (malformed statement x variation), all pairs of malformed statements, all combinations of up to three variations; a case is one configuration",
    assumptions=["the problem posed is observed through its bounds, scales, mesh, names and function values at a generic point"],
    note="All listed departures, alone, over all variations and in pairs; all combinations of up to three variations (four in thorough).",
)
NAMES = dict(states=("time", "p", "q"), inputs=("u", "w"))


def B(*a):
    from lumos.optimal_control.config import BoundConfig

    return BoundConfig(*a)


def S(*a):
    from lumos.optimal_control.config import ScaleConfig

    return ScaleConfig(*a)


def C(*a):
    from lumos.optimal_control.config import BoundaryConditionConfig

    return BoundaryConditionConfig(*a)


def logging(**k):
    from lumos.optimal_control.config import LoggingConfig

    return LoggingConfig(**k)


BASE = dict(num_intervals=3, backend="casadi")
N = 4  # stages of the base configuration

# name -> statements on top of BASE (functions, so that every use has its own objects); the number of stages is len(mesh)
GOOD = {
    "interval points": lambda: dict(interval_points=np.array([0.0, 0.1, 0.75, 1.0])),
    "list of points": lambda: dict(interval_points=[0.0, 0.2, 0.4, 1.0]),
    "euler": lambda: dict(transcription="ForwardEuler"),
    "lgr": lambda: dict(transcription="LGR"),
    "lgr integral": lambda: dict(transcription="LGRIntegral"),
    "lgr tuple": lambda: dict(transcription=("LGR",)),
    "lgr 2": lambda: dict(transcription=("LGR", {"num_stages": 2})),
    "lgr integral 4": lambda: dict(transcription=("LGRIntegral", {"num_stages": 4})),
    "trapezoidal empty": lambda: dict(transcription=("Trapezoidal", {})),
    "cyclic": lambda: dict(is_cyclic=True, non_cyclic_vars=["states.time"]),
    "cyclic inputs": lambda: dict(is_cyclic=True, non_cyclic_vars=["inputs.w", "states.time"]),
    "condensed": lambda: dict(is_condensed=True),
    "custom": lambda: dict(backend="custom"),
    "limited": lambda: dict(hessian_approximation="limited-memory"),
    "bounds": lambda: dict(bounds=(B("states", "p", (-1.0, 2.0)), B("inputs", "u", (-np.inf, 3.0)))),
    "equal bounds": lambda: dict(bounds=(B("states", "q", (0.5, 0.5)), B("states_dot", "q", (0, 0)))),
    "array bounds": lambda: dict(bounds=(B("states", "p", (np.zeros(0), np.zeros(0))),)),  # filled with the number of stages
    "one bound": lambda: dict(bounds=(B("states", "p", (-3.0, 0.25)),)),
    "scales": lambda: dict(scales=(S("states", "p", 4.0), S("inputs", "w", 0.5))),
    "conditions": lambda: dict(boundary_conditions=(C(0, "states", "p", 0.25), C(-1, "inputs", "u", -0.5), C(1, "states", "q", 0.1))),
    "outputs": lambda: dict(con_output_names=("o2", "o1")),
    "logging": lambda: dict(logging_config=logging(sim_name="s", results_dir="UNUSED", log_every_nth_iter=2)),
}
# combinations that contradict each other by stating the same field
BAD = {
    "unknown scheme": lambda: dict(transcription="Hermite"),
    "unknown scheme tuple": lambda: dict(transcription=("RK4", {})),
    "scheme case": lambda: dict(transcription="lgr"),
    "unknown scheme argument": lambda: dict(transcription=("LGR", {"stages": 3})),
    "argument of euler": lambda: dict(transcription=("ForwardEuler", {"num_stages": 3})),
    "unknown backend": lambda: dict(backend="torch"),
    "empty backend": lambda: dict(backend=""),
    "unknown state bounds": lambda: dict(bounds=(B("states", "nope", (0.0, 1.0)),)),
    "input among states": lambda: dict(bounds=(B("states", "u", (0.0, 1.0)),)),
    "unknown group bounds": lambda: dict(bounds=(B("parameters", "p", (0.0, 1.0)),)),
    "unconstrained output bounds": lambda: dict(bounds=(B("con_outputs", "o9", (0.0, 1.0)),)),
    "second bounds unknown": lambda: dict(bounds=(B("states", "p", (0.0, 1.0)), B("inputs", "v", (0.0, 1.0)))),
    "reversed bounds": lambda: dict(bounds=(B("states", "p", (1.0, 0.0)),)),
    "nan bounds": lambda: dict(bounds=(B("states", "p", (np.nan, 1.0)),)),
    "bounds not a pair": lambda: dict(bounds=(B("states", "p", (0.0, 1.0, 2.0)),)),
    "one bound": lambda: dict(bounds=(B("states", "p", (0.0,)),)),
    "scalar bound": lambda: dict(bounds=(B("states", "p", 3.0),)),
    "mixed bounds": lambda: dict(bounds=(B("states", "p", (0.0, np.ones(4))),)),
    "listed bounds": lambda: dict(bounds=(B("states", "p", ([0.0] * 4, [1.0] * 4)),)),
    "matrix bounds": lambda: dict(bounds=(B("states", "p", (np.zeros((2, 2)), np.ones((2, 2)))),)),
    "uneven bounds": lambda: dict(bounds=(B("states", "p", (np.zeros(4), np.ones(3))),)),
    "reversed at one stage": lambda: dict(bounds=(B("states", "p", (np.zeros(4), np.array([1.0, 1.0, -0.1, 1.0]))),)),
    "one stage": lambda: dict(bounds=(B("states", "p", (np.zeros(1), np.ones(1))),)),
    "too many stages": lambda: dict(bounds=(B("states", "p", (np.zeros(99), np.ones(99))),)),
    "unknown scale": lambda: dict(scales=(S("states", "nope", 2.0),)),
    "unknown scale group": lambda: dict(scales=(S("nope", "p", 2.0),)),
    "unknown condition": lambda: dict(boundary_conditions=(C(0, "states", "nope", 0.0),)),
    "unknown condition group": lambda: dict(boundary_conditions=(C(0, "nope", "p", 0.0),)),
    "condition outside": lambda: dict(boundary_conditions=(C(99, "states", "p", 0.0),)),
    "condition before": lambda: dict(boundary_conditions=(C(-99, "states", "p", 0.0),)),
    "unknown non cyclic": lambda: dict(is_cyclic=True, non_cyclic_vars=["states.nope"]),
    "non cyclic without group": lambda: dict(is_cyclic=True, non_cyclic_vars=["time"]),
    "few points": lambda: dict(interval_points=np.array([0.0, 0.5, 1.0])),
    "many points": lambda: dict(interval_points=np.linspace(0, 1, 5)),
    "points from 0.1": lambda: dict(interval_points=np.array([0.1, 0.2, 0.5, 1.0])),
    "points to 0.9": lambda: dict(interval_points=np.array([0.0, 0.2, 0.5, 0.9])),
    "points from 1e-5": lambda: dict(interval_points=np.array([1e-5, 0.2, 0.5, 1.0])),
    "points to 0.99999": lambda: dict(interval_points=np.array([0.0, 0.2, 0.5, 0.99999])),
    "points to 2": lambda: dict(interval_points=np.array([0.0, 0.2, 0.5, 2.0])),
    "points falling": lambda: dict(interval_points=np.array([0.0, 0.6, 0.5, 1.0])),
    "points repeated": lambda: dict(interval_points=np.array([0.0, 0.5, 0.5, 1.0])),
    "unknown output": lambda: dict(con_output_names=("o1", "nope")),
    "unknown field": lambda: dict(num_interval=4),
}


class Clash(Exception):
    pass


def compose(parts):
    """Keyword arguments of the statements; the order decides nothing, fields may not be stated twice."""
    kw, stated = dict(BASE), set()
    for f in parts:
        add = f()
        for k, v in add.items():
            if k in stated:
                raise Clash
            stated.add(k)
            kw[k] = v
    return kw


def stages(kw):
    t = kw.get("transcription", "Trapezoidal")
    t = (t,) if isinstance(t, str) else t
    ns = (t[1].get("num_stages", 3) if len(t) > 1 else 3) if t[0].startswith("LGR") else 2
    return kw["num_intervals"] * (ns - 1) + 1


def fill(kw):
    for b in kw.get("bounds", ()):
        if isinstance(b.values, tuple) and isinstance(b.values[0], np.ndarray) and b.values[0].shape == (0,):
            n = stages(kw)
            b.values = (-1.0 - 0.1 * np.arange(n), 0.5 + 0.2 * np.arange(n))
    return kw


def build(cfg, kind):
    from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
    from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

    np.random.seed(12345)
    from mc import ocpcases as O

    model = O.MODELS["AC"][0]() if cfg.backend == "custom" else M.TinyA()
    return ScaledMeshOCP(model=model, sim_config=cfg) if kind == "free" else FixedMeshOCP(model=model, sim_config=cfg, mesh_scale=2.5)


def config(kind, kw):
    from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
    from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

    return (ScaledMeshOCP if kind == "free" else FixedMeshOCP).get_sim_config(**kw)


def posed(p):
    """What the problem poses."""
    x = 0.3 + 0.4 * R.generic(p.num_dec, 1)
    lam = R.generic(p.num_con, 2)
    out = dict(sizes=[p.num_dec, p.num_con, p.num_stages], lb=p.lb, ub=p.ub, mesh=p.get_mesh_from_dec_var(x), cons=p.constraints(x), obj=p.objective(x), grad=p.gradient(x),
               jac=p.jacobian(x), jrow=p.jacobianstructure()[0], jcol=p.jacobianstructure()[1])
    if p.hessian_approximation == "exact":
        out["hess"] = p.hessian(x, lam, 0.7)
    s = stub.seen(p, x)
    out.update(slb=s.lb, sub=s.ub, scl=s.cl, scu=s.cu, start=s.solves[-1]["x"])
    out["hessian option"] = [float(p.hessian_approximation == "exact")]
    return {k: np.asarray(v, float) for k, v in out.items()}


def same_tree(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_tree(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same_tree(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.all(a == b))
    return type(a) is type(b) and a == b


def units(tier):
    q = tier == "quick"
    g = list(GOOD)
    out = [dict(kind="refused", bad=b) for b in BAD]
    depth = 3 if q else 4
    out += [dict(kind="accepted", first=i, depth=depth, parts=4, part=k, quick=q) for i in range(len(g)) for k in range(4)]
    out += [dict(kind="values", part=i) for i in range(4)]
    return out + [dict(kind="fields"), dict(kind="derived"), dict(kind="ltc")]


def run_unit(unit, rec):
    from mc import core
    import os
    import tempfile

    with tempfile.TemporaryDirectory(dir=core.scratch_dir()) as d:
        old = os.getcwd()
        os.chdir(d)
        try:
            globals()["run_" + unit["kind"]](unit, rec)
        finally:
            os.chdir(old)


def refused(parts, kind, rec, what):
    try:
        for f in parts:
            try:
                f()
            except Exception:  # noqa: BLE001
                rec.outcome("refused when stated")
                return
        kw = fill(compose(parts))
    except Clash:
        return
    rec.at(dict(problem=kind, statements=what))
    rec.expect_raises(lambda: build(config(kind, kw), kind), "refused", f"{what} on a {kind} mesh problem")
    rec.outcome("refused when built")


def run_refused(unit, rec):
    bad = BAD[unit["bad"]]
    rec.at(unit["bad"])
    for kind in ("free", "fixed"):
        refused([bad], kind, rec, [unit["bad"]])
        for n, g in GOOD.items():
            refused([bad, g], kind, rec, [unit["bad"], n])
            refused([g, bad], kind, rec, [n, unit["bad"]])
        for n, g in BAD.items():
            if n != unit["bad"]:
                refused([bad, g], kind, rec, [unit["bad"], n])
        # a refused configuration spoils nothing for the next one
        rec.at(dict(after=unit["bad"]))
        p = build(config(kind, fill(compose([GOOD["bounds"], GOOD["scales"]]))), kind)
        rec.check(p.num_stages == N, "after refusal", "problem after a refused configuration")
    rec.nontrivial(unit["bad"])


def run_accepted(unit, rec):
    names = list(GOOD)
    i = unit["first"]
    combos = [()]
    for d in range(1, unit["depth"]):
        combos += list(itertools.combinations(names[i + 1:], d))
    for j, c in enumerate(combos):
        if j % unit["parts"] != unit["part"]:
            continue
        parts = [names[i], *c]
        try:
            compose([GOOD[n] for n in parts])
        except Clash:
            continue
        kinds = ("free", "fixed") if len(parts) < 3 else ("free",) if j % 2 else ("fixed",)
        for kind in kinds:
            if len(parts) == 3 and unit["quick"] and j % 3:
                round_trip(kind, parts, rec, problems=False)
            else:
                round_trip(kind, parts, rec)


def round_trip(kind, parts, rec, problems=True):
    rec.at(dict(problem=kind, statements=parts))
    kw = fill(compose([GOOD[n] for n in parts]))
    cfg = config(kind, kw)
    before = copy.deepcopy(cfg.to_dict())
    for f, v in kw.items():
        got = getattr(cfg, f)
        want = (v,) if f == "transcription" and isinstance(v, str) else v
        rec.check(got is v or same_tree(plain(got), plain(want)), "stated", lambda: f"{f} stated as {v}, held as {got}")
    d = cfg.to_dict()
    rec.check(isinstance(d, dict) and not has_objects(d), "dictionary", "objects of the library in the dictionary form")
    back = type(cfg)(**d)
    rec.check(type(back) is type(cfg) and same_tree(back.to_dict(), before), "round trip", "configuration rebuilt from its dictionary form")
    for f in d:
        rec.check(same_tree(plain(getattr(back, f)), plain(getattr(cfg, f))) and type(getattr(back, f)) is type(getattr(cfg, f)) or isinstance(getattr(cfg, f), list),
                  "round trip", lambda: f"{f} rebuilt as {getattr(back, f)!r}, was {getattr(cfg, f)!r}")
    again = type(cfg)(**turned(cfg.to_dict()))
    rec.check(same_tree(again.to_dict(), before), "round trip", "configuration rebuilt from its dictionary form in another order")
    rec.outcome("round trips")
    if not problems:
        return
    p = build(cfg, kind)
    rec.check(p.num_stages == stages(kw), "accepted", lambda: f"{p.num_stages} stages")
    want = posed(p)
    others = [("dictionary", back)]
    others.append(("same configuration again", cfg))
    for what, other in others:
        rec.at(dict(problem=kind, statements=parts, rebuilt=what))
        got = posed(build(other, kind))
        for k in want:
            rec.check(got[k].shape == want[k].shape, "same problem", lambda: f"{what}: {k} of shape {got[k].shape}, was {want[k].shape}")
            rec.close(got[k], want[k], "same problem", f"{what}: {k}", rtol=1e-12, atol=1e-13)
    rec.check(same_tree(cfg.to_dict(), before), "unchanged", "configuration changed by building from it")
    rec.nontrivial((kind, parts))
    rec.outcome("problems compared")


def turned(v):
    """The same dictionary form with all fields in reverse order."""
    if isinstance(v, dict):
        return {k: turned(x) for k, x in reversed(v.items())}
    return type(v)(turned(x) for x in v) if isinstance(v, (tuple, list)) else v


def plain(v):
    import dataclasses

    if dataclasses.is_dataclass(v):
        return {f.name: plain(getattr(v, f.name)) for f in dataclasses.fields(v)}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def has_objects(d):
    import dataclasses

    if isinstance(d, dict):
        return any(has_objects(v) for v in d.values())
    if isinstance(d, (list, tuple)):
        return any(has_objects(v) for v in d)
    return dataclasses.is_dataclass(d)


def run_values(unit, rec):
    """Acceptance of a pair of bounds, alone: exactly the ordered ones of one kind."""
    sc = [-np.inf, -1.0, 0, 0.0, 0.5, 0.5 + 1e-9, 3, np.float64(2.0), np.inf, np.nan]
    ar = [np.array(a, float) for a in ([0.0], [1.0], [0.0, 1.0], [0.0, 1.0 - 1e-9], [1.0, 0.0], [0.5, 0.5], [-np.inf, np.inf], [np.nan, 0.0])] + [np.zeros((1, 2)), np.zeros((2, 2)), np.zeros(())]
    other = [[0.0, 1.0], (0.0,), None, "1", {}]
    pairs = list(itertools.product(sc + ar + other, repeat=2))[unit["part"]::4]
    for lo, hi in pairs:
        rec.at(dict(lower=repr(lo), upper=repr(hi)))
        isn = lambda v: isinstance(v, (int, float, np.floating))  # noqa: E731
        isa = lambda v: isinstance(v, np.ndarray)  # noqa: E731
        if isn(lo) and isn(hi):
            ok = bool(lo <= hi)
        elif isa(lo) and isa(hi):
            ok = lo.ndim == hi.ndim == 1 and len(lo) == len(hi) and bool(np.all(lo <= hi))
        elif "1" in (type(lo) is str and lo, type(hi) is str and hi) and all(isn(v) or type(v) is str for v in (lo, hi)):
            continue  # text: not stated
        else:
            ok = False
        if ok:
            b = B("states", "p", (lo, hi))
            rec.check(b.values[0] is lo and b.values[1] is hi, "kept", "bounds as stated")
            rec.outcome("accepted")
        else:
            rec.expect_raises(lambda: B("states", "p", (lo, hi)), "bounds", f"bounds {lo!r}, {hi!r}")
            rec.outcome("refused")
    rec.nontrivial(unit["part"])


def run_fields(unit, rec):
    """Positional and named fields mean what they are called; defaults are as documented."""
    from lumos.optimal_control.config import BoundaryConditionConfig, BoundConfig, LoggingConfig, ScaleConfig, SimConfig

    rec.at("fields")
    b, s, c = BoundConfig("g", "n", (0.0, 1.0)), ScaleConfig("g", "n", 2.0), BoundaryConditionConfig(-1, "g", "n", 3.0)
    rec.check((b.group, b.name, b.values) == ("g", "n", (0.0, 1.0)), "fields", "bound")
    rec.check((s.group, s.name, s.value) == ("g", "n", 2.0), "fields", "scale")
    rec.check((c.stage, c.group, c.name, c.value) == (-1, "g", "n", 3.0), "fields", "condition")
    lc = LoggingConfig()
    rec.check((lc.sim_name, lc.results_dir, lc.log_every_nth_iter) == ("simulation", "results", 0), "defaults", "logging defaults")
    d = SimConfig()
    want = dict(num_intervals=99, interval_points=None, transcription=("Trapezoidal",), is_cyclic=False, non_cyclic_vars=[], is_condensed=False, backend="jax",
                hessian_approximation="exact", boundary_conditions=(), bounds=(), scales=(), con_output_names=(), logging_config=None)
    rec.check(d.to_dict() == want, "defaults", lambda: f"defaults {d.to_dict()}")
    rec.check(SimConfig().non_cyclic_vars is not SimConfig().non_cyclic_vars, "defaults", "shared default list")
    for f in want:
        rec.at(f)
        v = dict(num_intervals=7, interval_points=np.linspace(0, 1, 8), transcription=("LGR", {"num_stages": 5}), is_cyclic=True, non_cyclic_vars=["a"], is_condensed=True,
                 backend="casadi", hessian_approximation="limited-memory", boundary_conditions=(c,), bounds=(b,), scales=(s,), con_output_names=("y",), logging_config=lc)[f]
        k = SimConfig(**{f: v})
        for g in want:
            rec.check(same_tree(plain(getattr(k, g)), plain(v if g == f else want[g])), "fields", lambda: f"{g} after stating {f}: {getattr(k, g)}")
        rec.nontrivial(f)
    rec.at("dictionaries")
    rec.check(SimConfig(logging_config={}).logging_config == lc, "dictionaries", "logging stated as an empty dictionary")
    k = SimConfig(bounds=[dict(group="g", name="n", values=(0.0, 1.0))] * 2, scales=[dict(group="g", name="n", value=2.0)], boundary_conditions=[dict(stage=-1, group="g", name="n", value=3.0)])
    rec.check(tuple(k.bounds) == (b, b) and tuple(k.scales) == (s,) and tuple(k.boundary_conditions) == (c,), "dictionaries", "statements given as dictionaries")
    for bad in (dict(group="g", name="n", values=(1.0, 0.0)), dict(group="g", name="n"), dict(group="g", name="n", values=(0.0, 1.0), stage=1)):
        rec.expect_raises(lambda: SimConfig(bounds=[bad]), "dictionaries", f"{bad}")


def run_derived(unit, rec):
    """The drone configuration."""
    from lumos.simulations.drone_simulation import DroneSimulation

    for kw in ({}, dict(num_intervals=5), dict(transcription="LGR", num_intervals=4), dict(is_condensed=True, num_intervals=3), dict(bounds=(), num_intervals=3), dict(scales=(), num_intervals=6),
               dict(boundary_conditions=(C(0, "states", "x", 1.0),), num_intervals=3), dict(logging_config=logging(log_every_nth_iter=1), num_intervals=3)):
        kw = {"backend": "casadi", **kw}
        rec.at(dict(drone=str(kw)))
        cfg = DroneSimulation.get_sim_config(**kw)
        back = type(cfg)(**cfg.to_dict())
        rec.check(same_tree(back.to_dict(), cfg.to_dict()) and same_tree(plain(back), plain(cfg)), "round trip", "drone configuration")
        again = type(cfg)(**turned(cfg.to_dict()))
        rec.check(same_tree(again.to_dict(), cfg.to_dict()), "round trip", "drone configuration from a dictionary in another order")
        rec.check(type(back.logging_config) is type(cfg.logging_config), "round trip", "logging configuration")
        np.random.seed(1)
        a = posed(DroneSimulation(sim_config=cfg))
        np.random.seed(1)
        b = posed(DroneSimulation(sim_config=back))
        for k in a:
            rec.check(a[k].shape == b[k].shape, "same problem", k)
            rec.close(b[k], a[k], "same problem", k, rtol=1e-12, atol=1e-13)
        rec.nontrivial(str(kw))


def run_ltc(unit, rec):
    """The laptime configuration."""
    import os

    import lumos
    from lumos.simulations.laptime_simulation import LaptimeSimulation

    tr = os.path.join(os.path.dirname(lumos.__file__), "..", "data", "tracks", "Catalunya.csv")
    rec.check(os.path.exists(tr), "harness", "track file")
    alts = dict(is_cyclic=[True, False], non_cyclic_vars=[[], ["states.time"], ["inputs.track_heading", "inputs.steer"]], transcription=["LGR", ("LGR", {"num_stages": 4}), "Trapezoidal"],
                is_condensed=[False, True], bounds=[None, ()], scales=[None, (S("states", "vx", 3.0),)], boundary_conditions=[None, ()], con_output_names=[None, ("vehicle.ax",)],
                logging_config=[None, logging(log_every_nth_iter=3)])
    for combo in itertools.product(*alts.values()):
        kw = {k: v for k, v in zip(alts, combo) if v is not None}
        rec.at(dict(ltc=str(kw)))
        given = copy.deepcopy(kw)
        cfg = LaptimeSimulation.get_sim_config(track=tr, num_intervals=8, backend="casadi", **kw)
        rec.check(same_tree(plain(given["non_cyclic_vars"]), kw["non_cyclic_vars"]), "unchanged", "list of the caller changed")
        rec.check(set(cfg.non_cyclic_vars) == set(kw["non_cyclic_vars"]) | {"states.time", "inputs.track_heading"} and len(set(cfg.non_cyclic_vars)) == len(cfg.non_cyclic_vars),
                  "non cyclic", lambda: f"{cfg.non_cyclic_vars}")
        back = type(cfg)(**cfg.to_dict())
        rec.check(same_tree(back.to_dict(), cfg.to_dict()) and same_tree(plain(back), plain(cfg)), "round trip", "laptime configuration")
        again = type(cfg)(**turned(cfg.to_dict()))
        rec.check(same_tree(again.to_dict(), cfg.to_dict()), "round trip", "laptime configuration from a dictionary in another order")
        rec.check(type(back.logging_config) is type(cfg.logging_config), "round trip", "logging configuration")
        rec.outcome("round trips")
        rec.nontrivial(str(kw))
    for kw in ({}, dict(track=None)):
        rec.at(("no track", str(kw)))
        rec.expect_raises(lambda: LaptimeSimulation.get_sim_config(**kw), "track", "no track stated")
