"""C08: histories of scale statements; every quantity against the unscaled problem in scaled units."""
import itertools

import numpy as np

from mc import stub

stub.install()

from mc import ocpcases as O  # noqa: E402
from mc import ref as R  # noqa: E402

CHECK = dict(
    id="C08",
    level="model_checking",
    technique="explicit-state exploration of all sequences of scale statements, bound updates and block changes on the "
    "real problem object in lockstep with a last-statement-wins scale table; quantities compared with the unscaled problem",
    rule="all sequences up to the depth bound over the alphabet, per problem kind, backend and condensation; states are "
    "the (scales, bounds, blocks) reached, a trace is one sequence replayed on a fresh real problem",
    assumptions=["generic points separate all terms", "the unscaled problem itself is decided by C01, C02 and C04"],
    note="Every sequence up to the bound is replayed on the real class and all callbacks plus what the solver is handed "
    "and what solve returns are compared at the end.",
)

CASES = []
for kind, cond, cyc, (be, mod) in itertools.product(
    ("free", "2.0"), (False, True), (None, ["states.time"]), (("casadi", "AR"), ("custom", "ARC"))
):
    CASES.append(dict(model=mod, outs=["o2", "o1"], backend=be, scheme="LGR" if kind == "free" else "Trapezoidal",
                      ns=3, mesh="2n", kind=kind, cyclic=cyc, condensed=cond))
JAX = [dict(c, backend="jax", model="AR") for c in CASES if c["backend"] == "casadi" and c["cyclic"]]


def alphabet(kind):
    ops = [
        ("s", []),
        ("s", [["states", "p", 4.0], ["con_outputs", "o1", 0.2]]),
        ("s", [["inputs", "u", 0.5], ["states_dot", "q", 3.0], ["con_outputs", "o2", 10.0], ["states", "q", 0.25]]),
        ("s", [["states", "p", 2.0], ["inputs", "w", 7.0], ["states", "p", 5.0], ["states", "time", 0.1]]),
        ("x", [["states", "p", 9.0], ["states", "nope", 2.0]]),
        ("b", [["states", "p", -1.0, 2.0]]),
        ("e",),
        ("o",),  # toggle an extra objective
        ("k",),  # toggle an extra constraint block
    ]
    if kind == "free":
        ops.append(("s", [["global", "mesh_scale", 2.5], ["states", "p", 0.3]]))
    return ops


def extra_objective(n):
    from lumos.optimal_control.nlp import BaseObjective

    w = R.generic(n, 9)
    r = np.arange(n)
    rows, cols = np.append(r, 0), np.append(r, n - 1)
    return BaseObjective(
        num_in=n, objective=lambda x: float(np.sum(w * x ** 3)) + x[0] * x[-1],
        gradient=lambda x: 3 * w * x ** 2 + np.eye(n)[0] * x[-1] + np.eye(n)[-1] * x[0],
        hessian=lambda x: np.append(6 * w * x, 1.0), hessian_structure=(rows, cols),
    )


def extra_block(n):
    from lumos.optimal_control.nlp import BaseConstraints

    return BaseConstraints(
        num_in=n, num_con=2, constraints=lambda x: np.array([x[1] * x[2], x[0] ** 3 - x[-1]]),
        jacobian=lambda x: np.array([x[2], x[1], 3 * x[0] ** 2, -1.0]),
        jacobian_structure=(np.array([0, 0, 1, 1]), np.array([1, 2, 0, n - 1])),
        hessian=lambda x, l: np.array([l[0], 6 * x[0] * l[1]]),
        hessian_structure=(np.array([1, 0]), np.array([2, 0])),
    )


class Problem:
    """The real object plus toggles."""

    def __init__(self, case):
        self.p = O.make_problem(case)
        self.o = self.k = False

    def toggle(self, what):
        p, n = self.p, self.p.num_dec
        if what == "o":
            p.delete_objective("extra") if self.o else p.add_objective("extra", extra_objective(n))
            self.o = not self.o
        else:
            p.delete_constraints("extra") if self.k else p.add_constraints("extra", extra_block(n))
            p.set_cons()
            self.k = not self.k


def dense_all(p, x, lam_of, rec):
    r, c = p.jacobianstructure()
    J = R.dense(p.jacobian(x), r, c, (p.num_con, p.num_dec), rec, "jacobian")
    r, c = p.hessianstructure()
    H = R.dense(p.hessian(x, lam_of, 0.8), r, c, (p.num_dec, p.num_dec), rec, "hessian")
    return dict(c=np.ravel(p.constraints(x)), o=float(p.objective(x)), g=np.ravel(p.gradient(x)), J=J, H=H)


class Oracle:
    """Unscaled quantities and the positions needed to scale them, for one case."""

    def __init__(self, case, rec):
        self.case, self.rec, self.cache = case, rec, {}
        self.names = O.names_of(case["model"], case["outs"])
        p = O.make_problem(case)
        self.n, self.N = p.num_dec, p.num_stages
        self.dots = dict(zip(self.names["states"], p.model.get_group_names("states_dot")))
        groups = [(g, n) for g in R.GROUPS for n in self.names["states" if g == "states_dot" else g]]
        self.per = len(groups)
        self.pos = {gn: i for i, gn in enumerate(groups)}
        self.z = R.generic(self.n, 2)
        if case["kind"] == "free":
            self.z[-1] = 1.4

    def var_scales(self, sc):
        s = np.ones(self.n)
        for (g, n), v in sc.items():
            if g == "global":
                s[-1] = v
            else:
                s[np.arange(self.N) * self.per + self.pos[g, n]] = v
        return s

    def con_scales(self, sc, p):
        st = [sc.get(("states", n), 1.0) for n in self.names["states"]]
        co = [sc.get(("con_outputs", n), 1.0) for n in self.names["con_outputs"]]
        one = [1.0] * len(self.names["residuals"])
        sizes = {k: len(v) for k, v in p.split_constraints(np.arange(p.num_con)).items()}
        nc = (self.N - 1) * len(st)
        block = {"continuity": st * (self.N - 1), "model_algebra": (st + co + one) * self.N}
        if self.case["condensed"]:
            block["model_algebra"] = st * (self.N - 1) + (co + one) * self.N
        out = []
        for k, m in sizes.items():
            b = block.get(k, [1.0] * m)
            self.rec.check(len(b) == m, "block-size", f"block {k} has {m} constraints, expected {len(b)}")
            out += b
        assert nc >= 0
        return np.array(out)

    def unscaled(self, o, k, lam):
        key = (o, k, lam.tobytes())
        if key not in self.cache:
            q = Problem(self.case)
            if k:
                q.toggle("k")
            if o:
                q.toggle("o")
            self.cache[key] = dense_all(q.p, self.z, lam, self.rec), list(q.p.split_constraints(np.arange(q.p.num_con)))
        return self.cache[key]


def compare(q, orc, sc, bounds, rec):
    p = q.p
    s, cs = orc.var_scales(sc), None
    cs = orc.con_scales(sc, p)
    lam = R.generic(p.num_con, 4)
    # the unscaled problem orders its blocks the same way (extra block last)
    want, blocks = orc.unscaled(q.o, q.k, lam / cs)
    rec.check(list(p.split_constraints(np.arange(p.num_con))) == blocks, "blocks", "order of the constraint blocks changed")
    x = orc.z / s
    got = dense_all(p, x, lam, rec)
    t = dict(rtol=1e-9, atol=1e-9)
    rec.close(got["c"], want["c"] / cs, "constraints", "scaled constraints", **t)
    rec.close(got["o"], want["o"], "objective", "objective", **t)
    rec.close(got["g"], want["g"] * s, "gradient", "scaled gradient", **t)
    rec.close(got["J"], want["J"] * s / cs[:, None], "jacobian", "scaled Jacobian", **t)
    rec.close(got["H"], want["H"] * s * s[:, None], "hessian", "scaled Hessian", **t)
    lb, ub = np.full(orc.n, -np.inf), np.full(orc.n, np.inf)
    if orc.case["condensed"]:
        bounds = {**{("states_dot", n): (0.0, 0.0) for n in orc.names["states"]}, **bounds}
    for (g, n), (lo, hi) in bounds.items():
        i = np.arange(orc.N) * orc.per + orc.pos[g, n]
        lb[i], ub[i] = lo, hi
    st = stub.seen(p, orc.z.copy(), print_level=0, output_file="")
    rec.close(st.solves[0]["x"], x, "solver-x0", "initial guess handed to the solver", 1e-14, 0)
    rec.close(st.lb, lb / s, "solver-lb", "lower bounds handed to the solver", 1e-14, 0)
    rec.close(st.ub, ub / s, "solver-ub", "upper bounds handed to the solver", 1e-14, 0)
    rec.close(st.ret[0], orc.z, "round-trip", "solution returned for the scaled initial guess", 1e-13, 0)


def run_history(case, ops, orc, rec):
    from lumos.optimal_control.config import BoundConfig, ScaleConfig

    def sconf(l):
        return tuple(ScaleConfig(g, orc.dots[n] if g == "states_dot" else n, v) for g, n, v in l)

    q = Problem(case)
    sc, bounds = {}, {}
    for op in ops:
        if op[0] == "s":
            q.p.set_scales(sconf(op[1]))
            sc = {(g, n): v for g, n, v in op[1]}
        elif op[0] == "x":
            rec.expect_raises(lambda: q.p.set_scales(sconf(op[1])), "accepted", f"scales {op[1]}")
        elif op[0] == "b":
            q.p.update_bounds(tuple(BoundConfig(g, n, (lo, hi)) for g, n, lo, hi in op[1]))
            bounds = {**bounds, **{(g, n): (lo, hi) for g, n, lo, hi in op[1]}}
        elif op[0] == "e":
            dense_all(q.p, R.generic(orc.n, 6), R.generic(q.p.num_con, 7), rec)
        else:
            q.toggle(op[0])
        rec.transition()
    compare(q, orc, sc, bounds, rec)
    rec.state([case, sorted(map(str, sc.items())), sorted(map(str, bounds.items())), q.o, q.k])
    rec.trace()


def units(tier):
    out = []
    for i, case in enumerate(CASES):
        for a in range(len(alphabet(case["kind"]))):
            out.append(dict(case=case, first=a, depth=4 if tier == "thorough" else 3))
    for case in CASES:
        out.append(dict(case=case, steps=(1e-6,) if tier == "quick" else (1e-2, 1e-4, 1e-6)))
    for case in JAX:
        out.append(dict(case=case, first=None, depth=2))
    return out


def small_steps(ops, steps):
    """Histories in which one scale moves by a small relative amount, with all blocks present."""
    for d in steps:
        for op in (o for o in ops if o[0] == "s" and o[1]):
            for i in range(len(op[1])):
                new = [list(x) for x in op[1]]
                new[i][2] *= 1 + d
                one = [[*new[i][:2], 1 + d]]
                yield [("o",), ("k",), op, ("e",), ("s", new)]
                yield [("s", new), ("o",), ("k",), op]
                yield [("o",), ("k",), ("s", one)]
                yield [("o",), ("k",), ("s", one), ("s", [])]


def run_unit(unit, rec):
    case = unit["case"]
    ops = alphabet(case["kind"])
    orc = Oracle(case, rec)
    if "steps" in unit:
        seqs = list(small_steps(ops, unit["steps"]))
    elif unit["first"] is None:  # jax compiles per problem: few histories, all of the scale statements
        scs = [o for o in ops if o[0] == "s"]
        seqs = [[a] for a in scs] + [[scs[2], scs[0]]]
    else:
        seqs = []
        for d in range(unit["depth"]):
            for rest in itertools.product(range(len(ops)), repeat=d):
                if d == unit["depth"] - 1 and d >= 2 and ops[rest[-1]][0] == "e":
                    continue  # ends in an evaluation: nothing new after it
                seqs.append([ops[unit["first"]]] + [ops[i] for i in rest])
    for seq in seqs:
        rec.at(dict(case=case, ops=seq))
        run_history(case, seq, orc, rec)
    rec.outcome(case["backend"], len(seqs))
    rec.sample(dict(case=case, ops=seqs[-1]))
