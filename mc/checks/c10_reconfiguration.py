"""C10: histories of reconfigurations and evaluations against a reference problem in the final configuration."""
import itertools

import numpy as np

from mc import stub

stub.install()

from mc import ocpcases as O  # noqa: E402
from mc import ref as R  # noqa: E402
from mc.models import MODELS, NpNs  # noqa: E402

CHECK = dict(
    id="C10",
    level="model_checking",
    technique="explicit-state exploration of all reconfiguration histories of the real problem object in lockstep with a "
    "configuration record; each reached configuration compared with an independent reference problem",
    rule="casadi/custom: all sequences up to the depth bound on fresh problems; jax: one history per problem containing "
    "every window of the given length (de Bruijn sequence), compared after every operation; states are the configurations "
    "reached",
    assumptions=["generic points separate all terms", "models on a free mesh do not depend explicitly on the mesh"],
    note="Every sequence (or window) up to the bound is replayed on the real class; the oracle is rebuilt from the final "
    "configuration alone, so any trace left by the history shows.",
)
KS = [[[0.9, 0.1, -0.7], [-1.2, 0.6, 0.2]], [[-0.5, 1.3, 0.4], [0.25, -0.8, 1.5]]]


def mk(model, backend, kind, scheme, cond, cyc=None, outs=("o1",)):
    return dict(model=model, outs=list(outs), backend=backend, scheme=scheme, ns=3, mesh="2n", kind=kind, cyclic=cyc, condensed=cond)


CASES = [
    mk("AM", "casadi", "2.0", "LGR", False, outs=("o2", "r1")),
    mk("AM", "casadi", "2.0", "LGRIntegral", True, []),
    mk("AR", "casadi", "free", "LGRIntegral", False, ["states.time"]),
    mk("AR", "casadi", "free", "LGR", True),
    mk("C", "casadi", "2.0", "Trapezoidal", False, outs=("right.f", "tot")),
    mk("C", "casadi", "free", "LGR", True, outs=("tot",)),
    mk("K", "casadi", "2.0", "LGR", True, ["states.time"], ("r", "y")),
    mk("AMC", "custom", "2.0", "LGR", False, outs=("o2", "r1")),
    mk("ARC", "custom", "free", "Trapezoidal", True),
]
JAX = [
    mk("K", "jax", "free", "Trapezoidal", True, outs=("r", "y")),
    mk("AM", "jax", "2.0", "LGR", False, outs=("o2", "r1")),
    mk("AM", "jax", "2.0", "Trapezoidal", True, []),
    mk("AR", "jax", "free", "LGRIntegral", False, ["states.time"]),
    mk("AR", "jax", "free", "LGR", True),
    mk("C", "jax", "2.0", "LGR", False, outs=("right.f", "tot")),
    mk("C", "jax", "free", "Trapezoidal", True, outs=("tot",)),
]


def alphabet(case):
    if case["model"] == "C":
        ops = [("p", "right.g", [0.4, -0.3]), ("p", "left.k", 0.6), ("p", "m", 2.5)]
    elif case["model"] == "K":
        ops = [("p", "z", 0.8), ("p", "g", [0.6, 0.0]), ("p", "z", 0.0)]
    else:
        ops = [("p", "k", KS[0]), ("p", "k", KS[1]), ("p", "a", -0.4)]
    ops += [
        ("n", [0.0, 0.6, 1.0]),
        ("n", None),
        ("s", [["states", "p", 3.0], ["inputs", "u", 0.4]]),
        ("s", []),
        ("b", -0.5, 0.75),
        ("e",),
        ("v",),
    ]
    if case["kind"] != "free":
        ops += [("m", 0.5), ("m", 3.0)]
    return ops


class Conf:
    def __init__(self, case):
        self.params, self.pts, self.ms, self.scales, self.bounds = {}, O.points(case).tolist(), None if case["kind"] == "free" else float(case["kind"]), {}, None

    def key(self):
        return repr([sorted(self.params.items()), self.pts, self.ms, sorted(self.scales.items())])

    def full_params(self, case):
        d = O.default_params(case["model"])
        for path, v in self.params.items():
            t = d
            *head, last = path.split(".")
            for h in head:
                t = t[h]
            t[last] = np.array(v) if isinstance(v, list) else v
        return d


def perform(p, op, conf, case):
    from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig, ScaleConfig

    if op[0] == "b":
        p.update_bounds((BoundConfig("states", "p", op[1:]),))
        p.update_boundary_conditions((BoundaryConditionConfig(-1, "inputs", "u", op[1]),))
        conf.bounds = op[1:]
    elif op[0] == "p":
        p.modify_model_param(op[1], np.array(op[2]) if isinstance(op[2], list) else op[2])
        conf.params[op[1]] = op[2]
    elif op[0] == "n":
        p.set_normalized_mesh(None if op[1] is None else np.array(op[1]))
        conf.pts = op[1] if op[1] is not None else [0.0, 0.5, 1.0]
    elif op[0] == "m":
        p.set_mesh_scale(op[1])
        conf.ms = op[1]
    elif op[0] == "s":
        p.set_scales(tuple(ScaleConfig(g, n, v) for g, n, v in op[1]))
        conf.scales = {(g, n): v for g, n, v in op[1]}
    elif op[0] == "e":
        x = R.generic(p.num_dec, 8)
        p.jacobian(x), p.hessian(x, R.generic(p.num_con, 9), 1.0), p.gradient(x), p.objective(x)
    elif op[0] == "v":
        if case["backend"] == "jax":
            p.constraints(R.generic(p.num_dec, 8))
        else:
            stub.seen(p, R.generic(p.num_dec, 8), print_level=0, output_file="")


class Oracle:
    def __init__(self, case):
        self.case, self.cache = case, {}

    def get(self, conf):
        k = conf.key()
        if k not in self.cache:
            ref = O.make_ref(self.case, params=conf.full_params(self.case), pts=np.array(conf.pts),
                             mesh_scale=conf.ms, scales=dict(conf.scales))
            x = R.gen_point(ref, 1)
            lam = R.generic(ref.m, 4)
            if len(self.cache) > 400:
                self.cache.clear()
            # values only, the symbolic problem is not kept
            self.cache[k] = Frozen(ref, x, lam)
        return self.cache[k]


class Frozen:
    """The reference's values at one point."""

    def __init__(self, ref, x, lam):
        self.x, self.lam = x, lam
        self.n, self.m, self.N, self.per, self.blocks, self.mesh, self.s = ref.n, ref.m, ref.N, ref.per, ref.blocks, ref.mesh, ref.s
        self._c, self._o, self._g, self._J, self._H = ref.cons(x), ref.obj(x), ref.grad(x), ref.jac(x), ref.hess(x, lam, 0.6)

    def cons(self, x):
        return self._c

    def obj(self, x):
        return self._o

    def grad(self, x):
        return self._g

    def jac(self, x):
        return self._J

    def hess(self, x, lam, of):
        return self._H

    split = R.RefOCP.split


def compare(p, conf, orc, case, rec, full=True):
    ref = orc.get(conf)
    R.compare_values(p, ref, ref.x, rec)
    R.compare_first(p, ref, ref.x, rec)
    if full:
        R.compare_second(p, ref, ref.x, ref.lam, 0.6, rec)
    if conf.bounds is not None:
        names = O.names_of(case["model"], case["outs"])
        i = names["states"].index("p") + np.arange(ref.N) * ref.per
        rec.close([p.lb[i], p.ub[i]], np.ones((2, ref.N)) * np.array(conf.bounds)[:, None], "bounds", "bounds of p", 0, 0)
        i = ref.per * (ref.N - 1) + len(names["states"]) + names["inputs"].index("u")
        rec.close([p.lb[i], p.ub[i]], [conf.bounds[0]] * 2, "boundary", "boundary condition of u", 0, 0)
    ms = conf.ms if conf.ms is not None else ref.x[-1] * ref.s[-1]
    rec.close(np.ravel(p.get_mesh_from_dec_var(ref.x * ref.s)), ref.mesh * ms, "mesh", "mesh", 1e-13, 1e-13)
    # the model itself (what logging and the user's own calls see)
    names = O.names_of(case["model"], case["outs"])
    xs = {n: 0.3 + 0.2 * i for i, n in enumerate(names["states"])}
    us = {n: -0.4 + 0.5 * i for i, n in enumerate(names["inputs"])}
    want, _ = MODELS[case["model"]][1](NpNs, xs, us, 0.7, conf.full_params(case))
    got = p.model.forward(states=xs, inputs=us, mesh=0.7).states_dot
    rec.close([float(got[n]) for n in got], [want[n] for n in names["states"]], "model", "states_dot of the problem's model", 1e-12, 1e-12)
    rec.check(list(got) == list(p.model.get_group_names("states_dot")), "model", "names of states_dot")


def de_bruijn(k, n):
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[:n - 1]


def units(tier):
    out = []
    for case in JAX:
        out.append(dict(case=case, window=3 if tier == "thorough" else 2))
    for case in list(JAX) + [CASES[0]]:
        out.append(dict(case=case, steps=(1e-6,) if tier == "quick" else (1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6)))
    for case in CASES:
        for a in range(len(alphabet(case))):
            out.append(dict(case=case, first=a, depth=4 if tier == "thorough" else 3))
    return out


def small_steps(case, d):
    """Changes by the relative amount d from the values of base, one quantity at a time."""
    base = [op for op in alphabet(case) if op[0] in "pmnsb" and op[1] not in (None, []) and op[2:] != (0.0,)]
    for op in base:
        if op[0] == "p":
            v = np.array(op[2], float)
            for i in range(v.size):
                w = v.copy()
                w.flat[i] = w.flat[i] * (1 + d) if w.flat[i] else d
                yield op, ("p", op[1], w.tolist())
        elif op[0] == "m":
            yield op, ("m", op[1] * (1 + d))
        elif op[0] == "n":
            yield op, ("n", [op[1][0], op[1][1] * (1 + d), op[1][2]])
            yield ("n", None), ("n", [0.0, 0.5 * (1 + d), 1.0])
        elif op[0] == "s":
            for i in range(len(op[1])):
                new = [list(x) for x in op[1]]
                new[i][2] *= 1 + d
                yield op, ("s", new)
                yield ("s", []), ("s", [[*new[i][:2], 1 + d]])
        else:
            yield op, ("b", op[1] * (1 + d), op[2])
            yield op, ("b", op[1], op[2] * (1 + d))


def run_steps(unit, rec):
    """Changes however small take effect: every quantity moved a little and back, with evaluations in between."""
    case = unit["case"]
    orc = Oracle(case)
    p, conf = O.make_problem(case), Conf(case)
    for d in unit["steps"]:
        for a, b in small_steps(case, d):
            for k, op in enumerate((a, b, a)):
                rec.at(dict(case=case, steps=d, ops=[a, b, a][:k + 1]))
                perform(p, op, conf, case)
                rec.transition()
                compare(p, conf, orc, case, rec)
                rec.state([case, conf.key(), conf.bounds])
            rec.trace()
            rec.outcome("small steps")


def run_unit(unit, rec):
    case = unit["case"]
    if "steps" in unit:
        return run_steps(unit, rec)
    ops = alphabet(case)
    orc = Oracle(case)
    rec.sample(dict(case=case, ops=ops[:4]))
    if "window" in unit:
        p, conf = O.make_problem(case), Conf(case)
        compare(p, conf, orc, case, rec)
        for i, o in enumerate(de_bruijn(len(ops), unit["window"])):
            rec.at(dict(case=case, window=unit["window"], step=i, op=ops[o]))
            perform(p, ops[o], conf, case)
            rec.transition()
            compare(p, conf, orc, case, rec)
            rec.state([case, conf.key(), conf.bounds])
        rec.trace()
        rec.outcome("jax", i + 1)
        return
    for d in range(unit["depth"]):
        for rest in itertools.product(range(len(ops)), repeat=d):
            if d and ops[rest[-1]][0] in "ev":
                continue  # the comparison evaluates anyway
            seq = [ops[unit["first"]]] + [ops[i] for i in rest]
            rec.at(dict(case=case, ops=seq))
            p, conf = O.make_problem(case), Conf(case)
            for op in seq:
                perform(p, op, conf, case)
                rec.transition()
            compare(p, conf, orc, case, rec)
            rec.state([case, conf.key(), conf.bounds])
            rec.trace()
            rec.outcome(case["backend"])
