"""C25: histories of statements to the single-point solver, and its solutions."""
import itertools

import numpy as np

from mc import stub

stub.install()

from mc import libmodels as LM  # noqa: E402
from mc import models as M  # noqa: E402
from mc import ref as R  # noqa: E402

CHECK = dict(
    id="C25",
    level="model_checking",
    technique="explicit-state exploration of all sequences of bound, scale, objective and solve statements on the real solver object in lockstep with a "
    "last-statement-wins table and the model's equations differentiated independently; real Ipopt solves over a grid against the model and enumerated optima",
    rule="all sequences up to the depth bound over the alphabet per model; states are the tables reached, a trace is one sequence replayed on a fresh real "
    "solver; then all grid points of fixed variables and all objective directions with the real solver",
    assumptions=["bounds and derivatives reach the solver through the arguments of cyipopt.Problem", "one solver per model object"],
    note="Every sequence up to the bound is replayed on the real class; everything the solver is handed is compared at the end.",
)

MODELS = {
    # name: (outputs constrained, variables used by the alphabet: state, input, states_dot, con_output)
    "A": (["o2", "o1"], ("p", "u", "q", "o2")),
    "AR": (["o1"], ("q", "w", "time", "o1")),
    "C": (["tot", "left.f"], ("p", "u", "time", "left.f")),
    "L": ([], ("v", "u", "p", None)),
    "DroneModel": (["f_omega"], ("theta", "f", "z_dot", "f_omega")),
    "SimpleVehicle": (["Fz_tire_fr", "slip_angle_rl", "ay"], ("vy", "steer", "yaw_rate", "slip_angle_rl")),
}
CLS = dict(A=M.TinyA, AR=M.TinyAMesh, C=M.TinyC, L=M.TinyL)


def make(name, con_outputs):
    from lumos.optimal_control.model_solver import ModelSolver

    m = CLS[name]() if name in CLS else LM.make_model(name, tire="PerantoniTire" if name == "SimpleVehicle" else None)
    return m, ModelSolver(model=m, backend="casadi", con_outputs=list(con_outputs) if con_outputs is not None else None)


_REF = {}


def reference(name, outs):
    """layout and functions of the raw variables: constraints, their Jacobian, the Hessian of lam . c"""
    key = (name, tuple(outs))
    if key not in _REF:
        import casadi as cas
        import lumos.numpy as lnp

        m = CLS[name]() if name in CLS else LM.make_model(name, tire="PerantoniTire" if name == "SimpleVehicle" else None)
        S, U = list(m.names.states), list(m.names.inputs)
        res = {"AR": ["r1"], "SimpleVehicle": ["res_ax", "res_ay"]}.get(name, [])
        layout = [("states", n) for n in S] + [("inputs", n) for n in U] + [("states_dot", n) for n in S] + [("con_outputs", n) for n in outs]
        x = cas.SX.sym("x", len(layout))
        at = dict(zip(layout, range(len(layout))))
        with lnp.use_backend("casadi"):
            r = m.forward({n: x[at["states", n]] for n in S}, {n: x[at["inputs", n]] for n in U}, 0.0)
        o = dict(r.outputs)
        o.update({n.split(".")[-1]: o[n] for n in o if n.split(".")[-1] not in o})
        c = cas.vertcat(*[r.states_dot[n] - x[at["states_dot", n]] for n in S], *[o[n] - x[at["con_outputs", n]] for n in outs], *[o[n] for n in res])
        rows = [("states", n) for n in S] + [("con_outputs", n) for n in outs] + [None] * len(res)
        lam = cas.SX.sym("lam", c.shape[0])
        f = cas.Function("f", [x, lam], [c, cas.jacobian(c, x), cas.hessian(cas.dot(lam, c), x)[0]])
        _REF[key] = (layout, rows, lambda v, l: [a.full() for a in f.call([v, l])])
    return _REF[key]


def alphabet(name):
    outs, (s, u, sd, y) = MODELS[name]
    ops = [
        ("b", "states", s, (-1.0, 2.5)), ("b", "states", s, 0.75), ("b", "inputs", u, (-np.inf, 1.5)), ("b", "states_dot", sd, 0.0),
        ("s", "states", s, 4.0), ("s", "inputs", u, 0.25), ("s", "states", s, 0.5), ("s", "states", sd, 10.0),
        ("o", "inputs", u, 1.0), ("o", "states", s, -2.5), ("o", "states", s, 0.75), ("d",), ("solve",),
        ("x", "b", "states", s, (1.0 + 1e-9, 1.0)), ("x", "s", "states", s, 0.0), ("x", "s", "inputs", u, -0.5), ("x", "s", "states_dot", sd, 2.0), ("x", "b", "states", "nope", 1.0),
        ("x", "s", "inputs", "nope", 2.0), ("x", "s", "nope", s, 2.0), ("x", "b", "nope", u, 1.0), ("x", "o", "inputs", "nope", 1.0),
    ]
    if y:
        ops += [("b", "con_outputs", y, (0.0, np.inf)), ("s", "con_outputs", y, 100.0), ("o", "con_outputs", y, 0.5)]
    return ops


def units(tier):
    q = tier == "quick"
    out = []
    for name in MODELS:
        n = len(alphabet(name))
        deep = name in ("A", "AR", "C", "L", "DroneModel")
        out += [dict(kind="history", model=name, first=i, depth=3 if deep and not q else 2, quick=q) for i in range(n)]
        if q and name == "AR":
            out += [dict(kind="history", model=name, first=i, depth=3, quick=True) for i in range(n)]
    out += [dict(kind="steps", model=name, steps=(1e-6,) if q else (1e-2, 1e-4, 1e-6)) for name in MODELS]
    out += [dict(kind="refused"), dict(kind="fixed", model="DroneModel"), dict(kind="fixed", model="A"), dict(kind="fixed", model="C"), dict(kind="fixed", model="SimpleVehicle"),
            dict(kind="inverse"), dict(kind="optimum"), dict(kind="quasistatic", quick=q)]
    return out


def run_unit(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)


class Table:
    def __init__(self, layout):
        self.b = {v: (-np.inf, np.inf) for v in layout}
        self.s = {v: 1.0 for v in layout}
        self.o = {}

    def key(self):
        return [sorted(self.b.items()), sorted(self.s.items()), sorted(self.o.items())]


def run_history(unit, rec):
    name = unit["model"]
    ops = alphabet(name)
    rec.bounds.update(depth=unit["depth"], operations=len(ops))
    rest = [()]
    for d in range(1, unit["depth"]):
        rest += list(itertools.product(range(len(ops)), repeat=d))
    # effective operations may repeat; refused ones are interesting once and anywhere
    for tail in rest:
        seq = (unit["first"],) + tail
        if sum(ops[i][0] == "x" for i in seq) > 1:
            continue
        trace = [ops[i] for i in seq]
        rec.at(dict(model=name, history=trace))
        play(name, trace, rec)
        rec.trace()
        rec.outcome("histories")


def run_steps(unit, rec):
    """Statements that differ however little from those before take effect; there, there and back, with a solve before."""
    name = unit["model"]
    outs, (s, u, sd, y) = MODELS[name]
    for d in unit["steps"]:
        for g, n in (("states", s), ("inputs", u), ("states_dot", sd)) + ((("con_outputs", y),) if y else ()):
            pairs = []
            for lo, hi in ((-1.0, 2.5), (0.75, 0.75), (0.0, 3.0), (1000.0, np.inf)):
                for a, b in ((lo - abs(lo) * d, hi), (lo, hi + abs(hi) * d), (lo - d, hi), (lo, hi + d)):
                    if (a, b) != (lo, hi):
                        pairs.append((("b", g, n, (lo, hi)), ("b", g, n, (a, b))))
            pairs.append((("b", g, n, 0.75), ("b", g, n, 0.75 * (1 + d))))
            if g != "states_dot":
                pairs += [(("s", g, n, v), ("s", g, n, v * (1 + d))) for v in (1.0, 4.0, 0.02)]
            for a, b in pairs:
                for trace in ([a, b], [("o", "inputs", u, 1.0), a, ("solve",), b], [a, b, a]):
                    rec.at(dict(model=name, history=trace))
                    play(name, trace, rec)
                    rec.trace()
                    rec.outcome("small steps")


def play(name, trace, rec):
    outs = MODELS[name][0]
    layout, rows, f = reference(name, outs)
    model, ms = make(name, outs)
    t = Table(layout)
    names = {}
    rec.state((name, t.key()))
    for op in trace:
        if op[0] == "x":
            call = dict(b=lambda a: ms.set_bounds(*a), s=lambda a: ms.set_var_scale(*a), o=lambda a: ms.add_obj_from_var(*a))[op[1]]
            rec.expect_raises(lambda: call(op[2:]), "refused", f"{op}")
        elif op[0] == "b":
            ms.set_bounds(*op[1:])
            t.b[op[1:3]] = op[3] if isinstance(op[3], tuple) else (op[3], op[3])
        elif op[0] == "s":
            ms.set_var_scale(*op[1:])
            t.s[op[1:3]] = op[3]
        elif op[0] == "o":
            if op[1:] in t.o:
                rec.expect_raises(lambda: ms.add_obj_from_var(*op[1:]), "refused", f"second time {op}")
            else:
                names[op[1:]] = ms.add_obj_from_var(*op[1:])
                t.o[op[1:]] = 1
        elif op[0] == "d":
            if t.o:
                k = list(t.o)[0]
                ms.delete_objective(names.pop(k))
                del t.o[k]
        elif op[0] == "solve":
            observe_solve(ms, layout, t, rec, light=True)
        rec.transition()
        rec.state((name, t.key()))
    observe(ms, layout, rows, f, t, rec)
    observe_solve(ms, layout, t, rec)
    rec.nontrivial((name, str(t.key())))


def observe_solve(ms, layout, t, rec, light=False):
    n = len(layout)
    sc = np.array([t.s[v] for v in layout])
    x0, sol = R.generic(n, 3), R.generic(n, 4)
    info = dict(status=0, status_msg=b"", obj_val=0.0, mult_g=np.zeros(1), mult_x_L=np.zeros(n), mult_x_U=np.zeros(n))
    stub.SCRIPT = lambda st, x: (sol.copy(), dict(info))
    try:
        s = stub.seen(ms, x0)
    finally:
        stub.SCRIPT = None
    if light:
        return
    lb, ub = (np.array([t.b[v][i] for v in layout]) for i in (0, 1))
    rec.check(s.n == n and s.m == ms.num_con, "sizes", "problem size")
    rec.close(s.lb, lb / sc, "handed bounds", "lower bounds handed to the solver", rtol=1e-13, atol=0)
    rec.close(s.ub, ub / sc, "handed bounds", "upper bounds handed to the solver", rtol=1e-13, atol=0)
    rec.close(s.cl, np.zeros(s.m), "constraint bounds", "lower bounds of the constraints", atol=0)
    rec.close(s.cu, np.zeros(s.m), "constraint bounds", "upper bounds of the constraints", atol=0)
    rec.close(s.solves[-1]["x"], x0 / sc, "start", "starting point handed to the solver", rtol=1e-13)
    x, inf = s.ret
    rec.close(x, sol * sc, "returned point", "returned point in the units of the model", rtol=1e-13)
    for i, (g, nm) in enumerate(layout):
        rec.check(ms.get_var(x, g, nm) == x[i], "get_var", lambda: f"get_var of {g}.{nm}")
    rec.check(inf["status"] == 0, "status", "status returned")


def observe(ms, layout, rows, f, t, rec):
    n, m = len(layout), len(rows)
    rec.check(ms.num_dec == n and ms.num_con == m, "sizes", lambda: f"{ms.num_dec} variables and {ms.num_con} constraints, expected {n} and {m}")
    rec.check(list(ms.input_names) == [f"{g}.{v}" for g, v in layout], "names", lambda: f"names {ms.input_names}")
    for i, (g, v) in enumerate(layout):
        rec.check(int(ms.get_var_idx(g, v)) == i, "index", lambda: f"index of {g}.{v}")
        rec.check(tuple(map(float, ms.get_bounds(g, v))) == tuple(map(float, t.b[g, v])), "bounds", lambda: f"bounds of {g}.{v}: {ms.get_bounds(g, v)}, stated {t.b[g, v]}")
    sc = np.array([t.s[v] for v in layout])
    cs = np.array([1.0 if r is None else t.s[r] for r in rows])
    for k in range(2):
        X = 0.4 + 0.5 * R.generic(n, k)
        if ("states", "vx") in layout:
            s, u, _ = LM.nominal("SimpleVehicle", k + 1)
            X[:len(s) + len(u)] = [{**s, **u}[v] if g == "states" else u[v] for g, v in layout[:len(s) + len(u)]]
        lam = R.generic(m, k + 5)
        c, J, H = f(X, lam / cs)
        x = X / sc
        tol = dict(rtol=1e-8, atol=1e-9 * (1 + np.max(np.abs(c))))
        rec.close(np.asarray(ms.constraints(x)), c.ravel() / cs, "constraints", "constraint values", **tol)
        jr, jc = ms.jacobianstructure()
        G = np.zeros((m, n))
        jv = np.asarray(ms.jacobian(x), float)
        rec.check(len(jv) == len(jr) == len(jc), "jacobian", "length of the Jacobian values and structure")
        np.add.at(G, (np.asarray(jr, int), np.asarray(jc, int)), jv)
        want = J * sc[None, :] / cs[:, None]
        rec.close(G, want, "jacobian", "constraint Jacobian", rtol=1e-8, atol=1e-9 * (1 + np.max(np.abs(want))))
        grad = np.zeros(n)
        val = 0.0
        for g, v, w in t.o:
            i = layout.index((g, v))
            val += w * X[i]
            grad[i] += w * sc[i]
        if t.o:
            rec.close(float(ms.objective(x)), val, "objective", "objective", rtol=1e-12, atol=1e-12)
            rec.close(np.asarray(ms.gradient(x)), grad, "gradient", "gradient", rtol=1e-12, atol=1e-12)
        hr, hc = (np.asarray(a, int) for a in ms.hessianstructure())
        hv = np.asarray(ms.hessian(x, lam, 0.7), float)
        rec.check(len(hv) == len(hr) == len(hc), "hessian", "length of the Hessian values and structure")
        low = np.all(hr >= hc) or np.all(hr <= hc)
        rec.check(bool(low), "hessian", "Hessian structure is not one triangle")
        G = np.zeros((n, n))
        np.add.at(G, (hr, hc), hv)
        G = G + G.T - np.diag(np.diag(G))
        want = H * np.outer(sc, sc)
        rec.close(G, want, "hessian", "Hessian of the Lagrangian", rtol=1e-7, atol=1e-9 * (1 + np.max(np.abs(want))))


def run_refused(unit, rec):
    from lumos.optimal_control.model_solver import ModelSolver

    for b in ("jax", "custom", "numpy", "", None):
        rec.at(("backend", b))
        rec.expect_raises(lambda: ModelSolver(model=M.TinyA(), backend=b), "backend", f"backend {b}")
    rec.at("no constraint outputs")
    _, ms = make("A", None)
    rec.check(ms.input_names == [f"states.{n}" for n in ("time", "p", "q")] + ["inputs.u", "inputs.w"] + [f"states_dot.{n}" for n in ("time", "p", "q")], "names", "names without outputs")
    for k in range(3):
        w = (1.0, -0.5, 3.0)[k]
        rec.at(("default weight", w))
        n = ms.add_obj_from_var("states", "p", w) if k else ms.add_obj_from_var("states", "p")
        rec.check(n in ms._objectives if hasattr(ms, "_objectives") else True, "objective name", "name of the objective")
        x = R.generic(ms.num_dec, 1)
        rec.close(float(ms.objective(x)), x[1] * sum((1.0, -0.5, 3.0)[:k + 1]), "objective", "sum of the objectives", rtol=1e-12)


OPTS = dict(hessian_approximation="limited-memory", print_level=0, sb="yes", fixed_variable_treatment="make_parameter", max_iter=400, tol=1e-9)


def real_solve(ms, x0, **o):
    stub.ACTIVE = False
    try:
        return ms.solve(x0, **{**OPTS, **o})
    finally:
        stub.ACTIVE = True


def run_fixed(unit, rec):
    """States and inputs given: the solver returns the model's outputs and derivatives."""
    name = unit["model"]
    outs = MODELS[name][0]
    layout, rows, f = reference(name, outs)
    model, ms = make(name, outs)
    nz = len(model.names.states) + len(model.names.inputs)
    if name == "SimpleVehicle":
        # only the points whose residuals vanish exist; the accelerations are left free
        pts = [LM.nominal(name, k)[:2] for k in range(6)]
        pts = [[{**s, **u}[v] if g == "states" else u[v] for g, v in layout[:nz]] for s, u in pts]
    else:
        pts = [list(0.6 * R.generic(nz, k) + 0.2 * (k % 3)) for k in range(12)]
    for k, pt in enumerate(pts):
        for scaled in (False, True):
            rec.at(dict(model=name, point=pt, scaled=scaled))
            _, ms = make(name, outs)
            free = ("ax", "ay") if name == "SimpleVehicle" else ()
            for (g, v), val in zip(layout[:nz], pt):
                if v in free and g == "inputs":
                    continue
                ms.set_bounds(g, v, float(val))
            if scaled:
                for j, (g, v) in enumerate(layout):
                    if g != "states_dot":
                        ms.set_var_scale(g, v, (0.5, 2.0, 8.0)[j % 3])
            x0 = np.concatenate([pt, np.zeros(len(layout) - nz)])
            x, info = real_solve(ms, x0)
            rec.check(info["status"] in (0, 1), "solved", lambda: f"solver status {info['status']} {info['status_msg']}")
            c, _, _ = f(x, np.zeros(len(rows)))
            rec.close(c.ravel(), np.zeros(len(rows)), "model equations", "model equations at the returned point", atol=1e-5 * (1e3 if name == "SimpleVehicle" else 1))
            for i, (g, v) in enumerate(layout[:nz]):
                if not (v in free and g == "inputs"):
                    rec.close(x[i], pt[i], "fixed value", f"fixed {g}.{v}", rtol=1e-7, atol=1e-7)
            rec.outcome("solves")
        rec.nontrivial((name, k))


def run_inverse(unit, rec):
    """Accelerations given: the solver returns the thrust and attitude that produce them."""
    for k, (ax, az, om) in enumerate(itertools.product((-3.0, 0.0, 4.0), (-2.0, 0.0, 5.0), (-1.0, 0.5))):
        rec.at(dict(x_dot_dot=ax, z_dot_dot=az, omega=om))
        _, ms = make("DroneModel", ["f_omega"])
        for v, b in dict(x=0.5, z=1.5, x_dot=-0.3, z_dot=0.8, theta=(-1.5, 1.5)).items():
            ms.set_bounds("states", v, b)
        ms.set_bounds("inputs", "f", (0.0, 100.0))
        ms.set_bounds("states_dot", "x_dot", ax)
        ms.set_bounds("states_dot", "z_dot", az)
        ms.set_bounds("states_dot", "theta", om)
        if k % 2:
            ms.set_var_scale("inputs", "f", 10.0)
            ms.set_var_scale("states", "x_dot", 5.0)
        x0 = np.zeros(ms.num_dec)
        x0[ms.get_var_idx("inputs", "f")] = 10.0
        x, info = real_solve(ms, x0, max_iter=3000)
        rec.check(info["status"] in (0, 1), "solved", lambda: f"solver status {info['status']}")
        f = np.hypot(ax, az + 9.81)
        g = lambda a, b: ms.get_var(x, a, b)  # noqa: E731
        rec.close([g("inputs", "f"), g("states", "theta"), g("inputs", "omega"), g("con_outputs", "f_omega"), g("states_dot", "x"), g("states_dot", "z")],
                  [f, np.arctan2(ax, az + 9.81), om, f * om, -0.3, 0.8], "inverse", "thrust, attitude and rates", rtol=1e-5, atol=1e-5)
        rec.nontrivial(k)
        rec.outcome("solves")


def run_optimum(unit, rec):
    """A linear model: the returned optimum against enumerated vertices."""
    from scipy.optimize import linprog

    outs = ["y"]
    layout, rows, f = reference("L", outs)
    n, m = len(layout), len(rows)
    c0, J, _ = f(np.zeros(n), np.zeros(m))
    boxes = {("states", "time"): (0.0, 1.0), ("states", "p"): (-2.0, 3.0), ("states", "v"): (-1.5, 2.0), ("inputs", "u"): (-1.0, 0.5)}
    for extra in ({}, {("con_outputs", "y"): (-1.0, 2.5)}, {("states_dot", "v"): 0.0}, {("con_outputs", "y"): (-np.inf, 0.5), ("states_dot", "v"): (-0.5, np.inf)}):
        for objs in [[(v, w)] for v in layout for w in (1.0, -2.0)] + [[(("inputs", "u"), 3.0), (("states", "p"), -1.0)], [(("con_outputs", "y"), 1.0), (("states_dot", "v"), 0.7)]]:
            for scaled in (False, True):
                rec.at(dict(bounds=str(extra), objectives=str(objs), scaled=scaled))
                _, ms = make("L", outs)
                B = {**boxes, **extra}
                if scaled:
                    ms.set_var_scale("states", "p", 5.0)
                for (g, v), b in B.items():
                    ms.set_bounds(g, v, b)
                cost = np.zeros(n)
                for (g, v), w in objs:
                    ms.add_obj_from_var(g, v, w)
                    cost[layout.index((g, v))] += w
                if scaled:
                    ms.set_var_scale("inputs", "u", 0.2)
                    ms.set_var_scale("con_outputs", "y", 10.0)
                x, info = real_solve(ms, np.zeros(n))
                bb = [B.get(v, (-np.inf, np.inf)) for v in layout]
                bb = [b if isinstance(b, tuple) else (b, b) for b in bb]
                lp = linprog(cost, A_eq=J, b_eq=-c0.ravel(), bounds=bb)
                rec.check(info["status"] in (0, 1) and lp.status == 0, "solved", lambda: f"status {info['status']}")
                rec.close(cost @ x, lp.fun, "optimum", "optimal value", rtol=1e-5, atol=1e-5)
                rec.close(J @ x + c0.ravel(), np.zeros(m), "model equations", "model equations at the optimum", atol=1e-6)
                for v, xi, (lo, hi) in zip(layout, x, bb):
                    rec.check(lo - 1e-6 <= xi <= hi + 1e-6, "within bounds", lambda: f"{v} = {xi} outside {lo, hi}")
                rec.nontrivial((str(extra), str(objs)))
                rec.outcome("solves")


def run_quasistatic(unit, rec):
    """Steady cornering of the vehicle: the returned point satisfies the model and every bound, and the objective is no worse than at the start."""
    outs = ["Fz_tire_fr", "slip_angle_rl", "ay"]
    layout, rows, f = reference("SimpleVehicle", outs)
    for k, (vx, delta) in enumerate(itertools.product((20.0, 40.0), (0.0, 0.05, -0.08) if unit["quick"] else (0.0, 0.02, 0.05, -0.08, 0.1))):
        rec.at(dict(vx=vx, steer=delta))
        _, ms = make("SimpleVehicle", outs)
        B = {("states", "vx"): vx, ("states", "vy"): (-5.0, 5.0), ("states", "yaw_rate"): (-3.0, 3.0), ("inputs", "steer"): delta, ("inputs", "throttle"): (0.0, 1.0),
             ("inputs", "brake"): (0.0, 1.0), **{("states", f"wheel_speed_{c}"): (1.0, 300.0) for c in ("fl", "fr", "rl", "rr")},
             **{("states_dot", n): 0.0 for n in ("yaw_rate", "vx", "vy", "wheel_speed_fl", "wheel_speed_fr", "wheel_speed_rl", "wheel_speed_rr")}}
        for v, b in B.items():
            ms.set_bounds(*v, b)
        for c in ("fl", "fr", "rl", "rr"):
            ms.set_var_scale("states", f"wheel_speed_{c}", 100.0)
        ms.set_var_scale("states", "vx", 30.0)
        ms.set_var_scale("con_outputs", "Fz_tire_fr", 5000.0)
        x0 = np.zeros(len(layout))
        for v, val in {("states", "vx"): vx, **{("states", f"wheel_speed_{c}"): vx / 0.33 for c in ("fl", "fr", "rl", "rr")}, ("inputs", "steer"): delta,
                       ("con_outputs", "Fz_tire_fr"): 5000.0}.items():
            x0[layout.index(v)] = val
        x, info = real_solve(ms, x0, max_iter=800)
        rec.check(info["status"] in (0, 1), "solved", lambda: f"status {info['status']} {info['status_msg']}")
        c, _, _ = f(x, np.zeros(len(rows)))
        rec.close(c.ravel(), np.zeros(len(rows)), "model equations", "model equations at the returned point", atol=2e-2)
        for v, b in B.items():
            lo, hi = b if isinstance(b, tuple) else (b, b)
            xi = x[layout.index(v)]
            rec.check(lo - 1e-4 <= xi <= hi + 1e-4, "within bounds", lambda: f"{v} = {xi} outside {lo, hi}")
        rec.outcome("steady points")
        rec.nontrivial(k)
