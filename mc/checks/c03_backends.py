"""C03: the same model, parameters and point under every backend."""
import numpy as np

from mc import libmodels as L
from mc import ocpcases as O
from mc import ref as R
from mc.models import MODELS

CHECK = dict(
    id="C03",
    level="exploration",
    technique="exhaustive differential exploration: every backend on the same enumerated models, parameter variants and points",
    rule="every library model and submodel choice and every harness model, every constraint-output selection of the "
    "table, every single-parameter variant (each leaf changed generically, at construction and by modify_model_param), "
    "two operating points; values against the model called directly with numbers, dense Jacobian and Hessian across "
    "backends; every (model, outputs, variant) is a distinct case",
    assumptions=["operating points are away from the switching points of the tire and vehicle formulas",
                 "GP and MLP aero models with small parameter sizes", "jax Hessian of the MF52 tire only in the thorough tier"],
    note="All combinations within the bounds; the reference for values is a freshly built model evaluated by plain numpy.",
)
UNIT_TIMEOUT = 800

LIB = [
    dict(name="DroneModel"), dict(name="TrackPosition2D"),
    dict(name="SimpleVehicle", tire="PerantoniTire", aero="ConstAero"),
    dict(name="SimpleVehicleOnTrack", tire="PerantoniTire", aero="GPAero"),
    dict(name="SimpleVehicleOnTrack", tire="PerantoniTire", aero="MLPAero"),
    dict(name="SimpleVehicle", tire="MF52", aero="ConstAero", nohess=True),
]
THOROUGH = [
    dict(name="SimpleVehicleOnTrack", tire="MF52", aero="GPAero"),
    dict(name="SimpleVehicle", tire="MF52", aero="MLPAero"),
    dict(name="SimpleVehicleOnTrack", tire="PerantoniTire", aero="ConstAero"),
]
OUTS = {"DroneModel": ("f_omega", "sin_theta"), "TrackPosition2D": ("curvature",),
        "SimpleVehicle": ("tire_fr.Fy", "slip_ratio_rl", "aero.Cz"),
        "SimpleVehicleOnTrack": ("vehicle.slip_angle_fr", "kinematics.yaw_angle", "vehicle.ax")}


def units(tier):
    out = []
    libs = LIB + (THOROUGH if tier == "thorough" else [])
    for lib in sorted(libs, key=lambda d: d.get("tire") != "MF52"):
        if tier == "thorough":
            lib = {k: v for k, v in lib.items() if k != "nohess"}
        out.append(dict(kind="lib", lib=lib, tier=tier))
    for mk in ("A", "AR", "AM", "B", "L", "C", "N", "K"):
        for outs in O.CON_OUTPUTS[mk]:
            out.append(dict(kind="tiny", model=mk, outs=list(outs), tier=tier))
    return out


def problem(model, outs, backend, fixed=False):
    from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
    from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

    cls = FixedMeshOCP if fixed else ScaledMeshOCP
    conf = cls.get_sim_config(num_intervals=1, transcription="Trapezoidal", backend=backend, con_output_names=tuple(outs),
                              logging_config=None)
    return cls(model=model, sim_config=conf)


def direct(model, outs, S, U, mesh):
    """Values of the model called directly with numbers."""
    rows = []
    for i in range(len(S)):
        r = model.forward(S[i], U[i], mesh[i])
        f = [float(r.states_dot[n]) for n in model.get_group_names("states_dot")]
        y = [float(r.outputs[n]) for n in outs]
        rr = [float(r.outputs[n]) for n in model.get_group_names("residuals")]
        yo = [float(r.outputs[n]) for n in model.get_group_names("outputs")]
        rows.append((f, y, rr, yo))
    return rows


class Point:
    """Two stages; dec vector assembled from the documented layout (states, inputs, states_dot, con_outputs)."""

    def __init__(self, names, S, U, outs, free, seed=1):
        self.S, self.U, self.mesh_scale = S, U, (13.7 if free else 1.0)
        self.xd = [R.generic(len(names["states"]), seed + i) for i in range(2)]
        self.yy = [R.generic(len(outs), seed + 3 + i) for i in range(2)]
        x = []
        for i in range(2):
            x += [S[i][n] for n in names["states"]] + [U[i][n] for n in names["inputs"]]
            x += list(self.xd[i]) + list(self.yy[i])
        self.x = np.array(x + ([self.mesh_scale] if free else []))
        self.mesh = [0.0, self.mesh_scale]


def run_points(probs, fresh, outs, pts, rec, hess, what, batched=True, skip_hess=()):
    """Compare all problems with the fresh model's direct values and with each other."""
    names = {g: fresh.get_group_names(g) for g in ("states", "inputs")}
    for pt in pts:
        rows = direct(fresh, outs, pt.S, pt.U, pt.mesh)
        want = []
        for i, (f, y, rr, _) in enumerate(rows):
            want += [a - b for a, b in zip(f, pt.xd[i])] + [a - b for a, b in zip(y, pt.yy[i])] + rr
        want = np.array(want)
        mag = float(np.max(np.abs(want)))
        first = None
        for be, p in probs.items():
            c = np.ravel(p.constraints(pt.x))
            got = p.split_constraints(c)["model_algebra"]
            rec.close(np.ravel(got), want, "values-" + be, f"{what}: constraint values of backend {be}", 1e-8, 1e-10 * mag)
            r, cc = p.jacobianstructure()
            J = R.dense(p.jacobian(pt.x), r, cc, (p.num_con, p.num_dec), rec, "jacobian-" + be)
            H = None
            if hess and be not in skip_hess:
                r, cc = p.hessianstructure()
                H = R.dense(p.hessian(pt.x, R.generic(p.num_con, 5), 0.9), r, cc, (p.num_dec, p.num_dec), rec, "hessian-" + be)
            if batched:
                arr = lambda D, g: np.array([[d[n] for n in names[g]] for d in D])  # noqa: E731
                b = p.model.batched_forward(arr(pt.S, "states"), arr(pt.U, "inputs"), np.array(pt.mesh), fresh.get_recursive_params())
                for fld, k in (("states_dot", 0), ("con_outputs", 1), ("residuals", 2), ("outputs", 3)):
                    wb = np.array([row[k] for row in rows])
                    if wb.size:
                        rec.close(np.asarray(getattr(b, fld)).reshape(wb.shape), wb, "batched-" + be,
                                  f"{what}: batched {fld} of backend {be}", 1e-8, 1e-10 * float(np.max(np.abs(wb))))
            if first is None:
                first = (be, c, J, H)
            else:
                rec.close(c, first[1], "values-cross", f"{what}: constraints of {be} and {first[0]}", 1e-8, 1e-10 * mag)
                rec.close(J, first[2], "jacobian-cross", f"{what}: Jacobian of {be} and {first[0]}", 1e-7, 1e-10 * float(np.max(np.abs(J))))
                if H is not None and first[3] is not None:
                    rec.close(H, first[3], "hessian-cross", f"{what}: Hessian of {be} and {first[0]}", 1e-6, 1e-10 * float(np.max(np.abs(H))))


def change(v, k):
    """A generic change of a leaf value, keeping shape, sign and type."""
    if np.shape(v) == ():
        return float(v) * 1.11 + (0.013 if v == 0 else 0.0)
    v = np.asarray(v, float)
    return v * (1.0 + 0.2 * R.generic(v.size, k).reshape(v.shape))


def run_unit(unit, rec):
    if unit["kind"] == "tiny":
        return tiny(unit, rec)
    lib = dict(unit["lib"])
    nohess = lib.pop("nohess", False)
    name = lib["name"]
    base = L.make_model(**lib, floats=True)
    pts_src = [[L.nominal(name, k) for k in (1, 2)], [L.nominal(name, k) for k in (3, 4)]]
    rec.bounds["states"] = len(base.get_group_names("states"))
    for outs in ((), OUTS[name]):
        if not outs and lib.get("tire") and unit["tier"] != "thorough":
            continue
        probs = {}
        for be in ("casadi", "jax"):
            probs[be] = problem(L.make_model(**lib, floats=True), outs, be)
        names = {g: base.get_group_names(g) for g in ("states", "inputs")}
        pts = [Point(names, [a[0], b[0]], [a[1], b[1]], outs, True, 3 * k) for k, (a, b) in enumerate(pts_src)]
        rec.at(dict(lib=lib, outs=outs))
        skip = ("jax",) if nohess else ()
        run_points(probs, L.make_model(**lib, floats=True), outs, pts, rec, True, "defaults", skip_hess=skip)
        rec.nontrivial([lib, outs, "defaults"])
        all_leaves = L.leaves(base.get_recursive_params())
        for i, (path, v) in enumerate(all_leaves):
            if lib.get("tire") == "MF52" and unit["tier"] != "thorough" and "tire_fr" not in path and "tire_" in path:
                continue  # the four tires share one implementation; C13 tells them apart
            rec.at(dict(lib=lib, outs=outs, param=path))
            new = change(v, i)
            fresh = L.make_model(**lib, floats=True)
            t = fresh.get_recursive_params()
            t.set_param(path, new)
            fresh.set_recursive_params(t)
            for p in probs.values():
                p.modify_model_param(path, new)
            run_points(probs, fresh, outs, pts[:1], rec, i % 8 == 0, f"{path} changed", skip_hess=skip)
            for p in probs.values():
                p.modify_model_param(path, v)
            rec.nontrivial([lib, outs, path])
        rec.outcome("library variants", len(all_leaves))
        # after all modifications have been undone
        run_points(probs, base, outs, pts[:1], rec, False, "restored")
    rec.sample(dict(lib=lib, params=len(all_leaves)))


def tiny(unit, rec):
    mk, outs = unit["model"], unit["outs"]
    cls = MODELS[mk][0]
    variants = [{}] + [{p: change(v, i)} for i, (p, v) in enumerate(L.leaves(cls().get_recursive_params()))]
    variants.append({p: change(v, 20 + i) for i, (p, v) in enumerate(L.leaves(cls().get_recursive_params()))})
    customs = {"A": "AC", "AR": "ARC", "AM": "AMC"}

    def build(c, var):
        m = c()
        t = m.get_recursive_params()
        for p, v in var.items():
            t.set_param(p, v)
        return c(params=t), t

    kept = None
    for i, var in enumerate(variants):
        rec.at(dict(model=mk, outs=outs, params=list(var)))
        fixed = mk != "B" and mk != "C" and i % 2 == 0 or mk == "AM"
        fresh, _ = build(cls, var)
        # as the parameters of a new model
        probs = {be: problem(build(cls, var)[0], outs, be, fixed) for be in ("casadi", "jax")}
        if mk in customs:
            probs["custom"] = problem(build(MODELS[customs[mk]][0], var)[0], outs, "custom", fixed)
        names = {g: fresh.get_group_names(g) for g in ("states", "inputs")}
        pts = []
        for k in range(2):
            S = [{n: 0.4 + 0.3 * np.sin(2.1 * j + st + k) for j, n in enumerate(names["states"])} for st in range(2)]
            U = [{n: -0.2 + 0.7 * np.cos(1.3 * j + st + k) for j, n in enumerate(names["inputs"])} for st in range(2)]
            pts.append(Point(names, S, U, outs, not fixed, 7 * k))
        run_points(probs, fresh, outs, pts, rec, True, f"new model with {list(var)}")
        # replaced in an existing problem, one after the other without going back to the defaults
        if kept is None:
            kept = probs
            done = {}
        elif fixed == (kept_fixed):
            done.update(var)
            for p in kept.values():
                for path, v in var.items():
                    p.modify_model_param(path, v)
            run_points(kept, build(cls, done)[0], outs, pts, rec, True, f"modified {list(done)}")
        if i == 0:
            kept_fixed = fixed
        if i == 0:
            trees(cls, probs, variants, build, names, pts[0], outs, rec)
        rec.nontrivial([mk, outs, list(var)])
        rec.outcome("harness variants")


def trees(cls, probs, variants, build, names, pt, outs, rec):
    """Batched evaluations with parameter trees of the caller, which may change one of them in between."""
    arr = lambda D, g: np.array([[d[n] for n in names[g]] for d in D])  # noqa: E731
    S, U, mesh = arr(pt.S, "states"), arr(pt.U, "inputs"), np.array(pt.mesh)
    kept = cls().get_recursive_params()
    for i, var in enumerate(variants):
        for how in ("same tree", "other tree", "same tree again"):
            if how == "same tree":
                for path, v in var.items():
                    kept.set_param(path, v)
            t = build(cls, var)[1] if how == "other tree" else kept
            rows = direct(cls(params=type(t).from_dict(t.to_dict())), outs, pt.S, pt.U, pt.mesh)
            for be, p in probs.items():
                b = p.model.batched_forward(S, U, mesh, t)
                for fld, k in (("states_dot", 0), ("con_outputs", 1), ("residuals", 2), ("outputs", 3)):
                    wb = np.array([row[k] for row in rows])
                    if wb.size:
                        rec.close(np.asarray(getattr(b, fld)).reshape(wb.shape), wb, "tree-" + be,
                                  f"{how} with {list(var)}: {fld} of backend {be}", 1e-9, 1e-10)
        rec.outcome("parameter trees of the caller")
