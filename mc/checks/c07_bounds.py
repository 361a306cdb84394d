"""C07: histories of bound / boundary-condition statements against a last-statement-wins table."""
import itertools

import numpy as np

from mc import stub

stub.install()

from mc import ocpcases as O  # noqa: E402

CHECK = dict(
    id="C07",
    level="model_checking",
    technique="explicit-state exploration of all operation sequences of the real problem object in lockstep with a "
    "last-statement-wins reference table, solver bounds observed through a recording stand-in of the solver",
    rule="all sequences up to the depth bound over the operation alphabet, on every problem kind; states are the "
    "reference tables reached, a trace is one sequence replayed on a fresh real problem",
    assumptions=["bounds reach the solver through the arguments of cyipopt.Problem"],
    note="Every sequence up to the bound is replayed on the real class; after the last operation all bounds, "
    "unscaled and as handed to the solver, are compared exactly.",
)

KINDS = [(k, c, s) for k in ("free", "2.0") for c in (False, True) for s in ("Trapezoidal", "LGR")]


def alphabet(kind, N):
    r = [0.25 * i for i in range(N)]
    ops = [
        ("b", [["states", "p", -1.0, 1.0]]),
        ("b", [["states", "p", [-1.5 - x for x in r], [0.5 + x for x in r]]]),
        ("b", [["states", "p", -4.0, 4.0], ["inputs", "u", -2.0, 0.5], ["states", "p", -0.75, 0.25]]),
        ("b", [["con_outputs", "o1", -np.inf, 3.0]]),
        ("b", []),
        ("c", [[0, "states", "p", 0.2]]),
        ("c", [[-1, "states", "p", -0.4], [1, "states", "q", 0.7]]),
        ("c", [[N - 1, "states", "p", 0.9]]),
        ("c", [[0, "states", "p", [-0.3, 0.1]], [0, "inputs", "u", 0.3]]),
        ("s", [["states", "p", 4.0], ["inputs", "u", 0.5]]),
        ("s", []),
        # refused
        ("x", "b", [["states", "p", -0.1, 0.1], ["states", "nope", 0.0, 1.0]]),
        ("x", "b", [["states", "p", [0.0] * (N + 1), [1.0] * (N + 1)]]),
        ("x", "b", [["inputs", "u", -0.1, 0.1], ["states", "p", [0.0], [1.0]]]),
        ("x", "c", [[0, "states", "p", 0.05], [N, "states", "p", 0.2]]),
        ("x", "c", [[-N - 1, "states", "p", 0.2]]),
        ("x", "c", [[1, "states", "p", [0.4, 0.4 - 1e-9]]]),
    ]
    if kind == "free":
        ops.append(("b", [["global", "mesh_scale", 0.5, 2.0]]))
    return ops


def _arr(v):
    return np.array(v, dtype=float) if isinstance(v, list) else v


class Table:
    def __init__(self, p, condensed, states):
        self.general, self.bc, self.scale, self.N, self.n = {}, {}, {}, p.num_stages, p.num_dec
        if condensed:
            for n in states:
                self.general[("states_dot", n)] = (0.0, 0.0)

    def apply(self, op):
        if op[0] == "b":
            for g, n, lo, hi in op[1]:
                self.general[(g, n)] = (lo, hi)
        elif op[0] == "c":
            for st, g, n, v in op[1]:
                self.bc[(g, n, st % self.N)] = tuple(v) if isinstance(v, list) else (v, v)
        elif op[0] == "s":
            self.scale = {(g, n): v for g, n, v in op[1]}

    def key(self):
        return [sorted((k, v) for k, v in self.general.items()), sorted((k, v) for k, v in self.bc.items()),
                sorted((k, v) for k, v in self.scale.items())]


def layout(case):
    names = O.names_of(case["model"], case["outs"])
    pos, off = {}, 0
    groups = [("states", names["states"]), ("inputs", names["inputs"]), ("states_dot", names["states"]),
              ("con_outputs", names["con_outputs"])]
    per = sum(len(v) for _, v in groups)
    for g, v in groups:
        for n in v:
            pos[(g, n)] = off
            off += 1
    return pos, per


def expected(tab, pos, per, free):
    lb, ub, s = np.full(tab.n, -np.inf), np.full(tab.n, np.inf), np.ones(tab.n)
    for (g, n), (lo, hi) in tab.general.items():
        if g == "global":
            lb[-1], ub[-1] = lo, hi
            continue
        for st in range(tab.N):
            i = st * per + pos[(g, n)]
            lb[i] = lo[st] if isinstance(lo, list) else lo
            ub[i] = hi[st] if isinstance(hi, list) else hi
    for (g, n, st), (lo, hi) in tab.bc.items():
        lb[st * per + pos[(g, n)]], ub[st * per + pos[(g, n)]] = lo, hi
    for (g, n), v in tab.scale.items():
        for st in range(tab.N):
            s[st * per + pos[(g, n)]] = v
    return lb, ub, s


def configs(op):
    from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig, ScaleConfig

    if op[0] == "b":
        return tuple(BoundConfig(g, n, (_arr(lo), _arr(hi))) for g, n, lo, hi in op[1])
    if op[0] == "c":
        return tuple(BoundaryConditionConfig(st, g, n, tuple(v) if isinstance(v, list) else v) for st, g, n, v in op[1])
    return tuple(ScaleConfig(g, n, v) for g, n, v in op[1])


def perform(p, op):
    f = {"b": p.update_bounds, "c": p.update_boundary_conditions, "s": p.set_scales}[op[0]]
    return f(configs(op))


def compare(p, tab, pos, per, free, rec):
    lb, ub, s = expected(tab, pos, per, free)
    rec.close(p.lb, lb, "lb", "lower bounds", 0, 0)
    rec.close(p.ub, ub, "ub", "upper bounds", 0, 0)
    st = stub.seen(p, print_level=0, output_file="")
    rec.close(st.lb, lb / s, "solver-lb", "lower bounds handed to the solver", 1e-14, 0)
    rec.close(st.ub, ub / s, "solver-ub", "upper bounds handed to the solver", 1e-14, 0)
    rec.check(not st.cl.any() and not st.cu.any() and len(st.cl) == p.num_con, "con-bounds", "constraint bounds are not zero")
    for g, n in (("states", "p"), ("con_outputs", "o1")):
        idx = np.arange(tab.N) * per + pos[(g, n)]
        rec.close(np.ravel(p.get_lb(g, n)), lb[idx], "get_lb", f"get_lb {g}.{n}", 0, 0)
        rec.close(np.ravel(p.get_ub(g, n)), ub[idx], "get_ub", f"get_ub {g}.{n}", 0, 0)


def run_history(case, init, ops, rec, observe, direct=False):
    pos, per = layout(case)
    kw = {}
    for op in init:
        kw[{"b": "bounds", "c": "boundary_conditions", "s": "scales"}[op[0]]] = configs(op)
    p = O.make_problem(case, **kw)
    free = case["kind"] == "free"
    tab = Table(p, case["condensed"], O.names_of(case["model"], case["outs"])["states"])
    # in the configuration, bounds come first, whatever the order in which they are written
    for op in sorted(init, key=lambda o: "bcs".index(o[0])):
        tab.apply(op)
    if case["condensed"]:
        for n in O.names_of(case["model"], case["outs"])["states"]:
            tab.general[("states_dot", n)] = (0.0, 0.0)
    for op in ops:
        if op[0] == "x":
            rec.expect_raises(lambda: perform(p, op[1:]), "accepted", f"update {op}")
        else:
            perform(p, op)
            tab.apply(op)
        rec.transition()
        if observe:
            compare(p, tab, pos, per, free, rec)
    compare(p, tab, pos, per, free, rec)
    if direct:
        # the convenience methods that state the bounds of one variable at one stage
        for k, (st, v) in enumerate(((0, 0.1), (-1, [-0.2, 0.7]), (1, [-np.inf, 0.3]))):
            for f, g, n in ((p.set_state_bounds, "states", "q"), (p.set_input_bounds, "inputs", "u"),
                            (p.set_con_output_bounds, "con_outputs", "o1")):
                w = tuple(v) if isinstance(v, list) else v
                f(n, stage=st, bounds=w)
                tab.bc[(g, n, st % tab.N)] = w if isinstance(w, tuple) else (w, w)
                rec.transition()
            compare(p, tab, pos, per, free, rec)
        rec.expect_raises(lambda: p.set_state_bounds("u", stage=0, bounds=0.0), "accepted", "set_state_bounds of an input")
    rec.state([case["kind"], case["condensed"], case["scheme"], tab.key()])
    rec.trace()


def the_case(kind, cond, scheme):
    return dict(model="AC", outs=["o1"], backend="custom", scheme=scheme, ns=3 if scheme == "LGR" else 2, mesh="2n" if scheme != "LGR" else "1",
                kind=kind, cyclic=None, condensed=cond)


def units(tier):
    out = []
    for i, (k, c, s) in enumerate(KINDS):
        n = len(alphabet(k, 3))
        for a in range(n):
            # quick: depth 3 everywhere; thorough: depth 4
            out.append(dict(kind=k, cond=c, scheme=s, first=a, depth=4 if tier == "thorough" else 3))
        out.append(dict(kind=k, cond=c, scheme=s, init=True))
        out.append(dict(kind=k, cond=c, scheme=s, steps=[1e-9] if tier == "quick" else [1e-2, 1e-4, 1e-6, 1e-9]))
    return out


def small_steps(N, d, free):
    """(statement, the same with one value moved by the relative amount d)."""
    for g, n in (("states", "p"), ("inputs", "u"), ("con_outputs", "o1")) + ((("global", "mesh_scale"),) if free else ()):
        for lo, hi in ((-1.0, 1.0), (0.4, 0.4), (2000.0, 2000.5), (0.0, 1e-3), (-np.inf, 3.0)):
            for a, b in ((lo - abs(lo) * d, hi), (lo, hi + abs(hi) * d), (lo - d, hi), (lo, hi + d)):
                if (a, b) != (lo, hi):
                    yield ("b", [[g, n, lo, hi]]), ("b", [[g, n, a, b]])
        if g == "global":
            continue
        for st in range(N):
            lo, hi = [-1.0 - i for i in range(N)], [2.0 + i for i in range(N)]
            l2, h2 = list(lo), list(hi)
            l2[st] *= 1 - d
            yield ("b", [[g, n, lo, hi]]), ("b", [[g, n, l2, hi]])
            h2[st] *= 1 + d
            yield ("b", [[g, n, lo, hi]]), ("b", [[g, n, lo, h2]])
            for v in (0.0, 0.2, -300.0):
                w = v * (1 + d) if v else d
                yield ("c", [[st, g, n, v]]), ("c", [[st, g, n, w]])
                yield ("c", [[st, g, n, [v - 1.0, v]]]), ("c", [[st, g, n, [v - 1.0, w if w > v else v - d]]])
                yield ("c", [[st, g, n, v]]), ("c", [[st, g, n, [v, v + d]]])
        for v in (4.0, 1.0, 0.01):
            yield ("s", [[g, n, v]]), ("s", [[g, n, v * (1 + d)]])
            yield ("s", []), ("s", [[g, n, 1 + d]])


def run_steps(unit, case, rec):
    """Statements that differ however little from those before take effect; there and back."""
    pos, per = layout(case)
    p = O.make_problem(case)
    free = case["kind"] == "free"
    tab = Table(p, case["condensed"], O.names_of(case["model"], case["outs"])["states"])
    if case["condensed"]:
        for n in O.names_of(case["model"], case["outs"])["states"]:
            tab.general[("states_dot", n)] = (0.0, 0.0)
    for d in unit["steps"]:
        for a, b in small_steps(p.num_stages, d, free):
            for k, op in enumerate((a, b, a)):
                rec.at(dict(case=case, step=d, ops=[a, b, a][:k + 1]))
                perform(p, op)
                tab.apply(op)
                rec.transition()
                compare(p, tab, pos, per, free, rec)
            rec.trace()
            rec.state([case["kind"], case["condensed"], case["scheme"], tab.key()])
            rec.outcome("small steps")


def run_unit(unit, rec):
    case = the_case(unit["kind"], unit["cond"], unit["scheme"])
    if unit.get("steps"):
        return run_steps(unit, case, rec)
    ops = alphabet(unit["kind"], 3)
    if unit.get("init"):
        good = [o for o in ops if o[0] != "x"]
        by = {k: [None] + [o for o in good if o[0] == k] for k in "bcs"}
        for b, c, s in itertools.product(by["b"], by["c"], by["s"]):
            init = [o for o in (b, c, s) if o is not None]
            for nxt in [None] + ops:
                seq = [nxt] if nxt is not None else []
                rec.at(dict(case=case, init=init, ops=seq))
                run_history(case, init, seq, rec, False)
        return
    first = ops[unit["first"]]
    for d in range(unit["depth"]):
        for k, rest in enumerate(itertools.product(range(len(ops)), repeat=d)):
            seq = [first] + [ops[i] for i in rest]
            rec.at(dict(case=case, ops=[unit["first"], *rest]))
            run_history(case, [], seq, rec, k % 7 == 0, direct=d == 0)
    rec.outcome("sequences", sum(len(ops) ** d for d in range(unit["depth"])))
    rec.sample(dict(kind=unit["kind"], ops=[ops[0], first]))
