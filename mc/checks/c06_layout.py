"""C06: the decision-vector layout, every small layout enumerated completely."""
import itertools
from collections import namedtuple

import numpy as np

CHECK = dict(
    id="C06",
    level="exploration",
    technique="bounded exhaustive enumeration of layouts and index queries against a reference layout",
    rule="every layout (sizes of 4 variable groups x intervals x stages per interval x number of global "
    "variables x group order) and, in each, every index query and every decision position; non-trivial "
    "= a layout with at least two variables per stage",
    assumptions=["group sizes, intervals, stages and globals beyond the bounds behave alike (the layout "
                 "formula is affine in them)"],
    note="Complete within the stated sizes; the oracle is an independent stage-major layout table.",
)

GROUPS = ("states", "inputs", "states_dot", "con_outputs")


def units(tier):
    if tier == "thorough":
        szs, ni, ns, ng = range(0, 4), range(1, 5), range(2, 6), (0, 1, 2, 3, 4)
    else:
        szs, ni, ns, ng = range(0, 3), range(1, 4), range(2, 5), (0, 1, 2, 4)
    sizes = [s for s in itertools.product(szs, repeat=4) if sum(s)]
    out = []
    n = 64 if tier == "thorough" else 16
    for i in range(n):
        out.append(dict(sizes=sizes[i::n], ni=list(ni), ns=list(ns), ng=list(ng)))
    out.append(dict(models=True))
    out.append(dict(windows=14 if tier == "quick" else 26))
    return out


def _names(sizes, order):
    # deliberately overlapping local names between groups
    Names = namedtuple("Names", ("outputs",) + GROUPS + ("residuals",))
    d = {}
    for g, k in zip(GROUPS, sizes):
        d[g] = tuple(f"v{j}" if g != "states_dot" else f"v{j}_dot" for j in range(k))
    return Names(outputs=("o0", "v0"), residuals=("r",), **d)


def check_operator(op, groups, names, NI, NS, globs, rec, case):
    """op against the reference layout: stage-major, groups in order, globals at the end."""
    N = NI * (NS - 1) + 1
    table, pos = {}, 0
    for s in range(N):
        for g in groups:
            for n in names[g]:
                table[g, n, s] = pos
                pos += 1
    nstage = sum(len(names[g]) for g in groups)
    gtab = {}
    for n in globs:
        gtab[n] = pos
        pos += 1
    C = rec.check
    C(op.num_dec == pos, "num_dec", lambda: f"num_dec {op.num_dec}, expected {pos}")
    C(op.num_stages == N, "num_stages", lambda: f"num_stages {op.num_stages}, expected {N}")
    C(op.num_var_stage == nstage, "num_var_stage", lambda: f"num_var_stage {op.num_var_stage} != {nstage}")
    C(op.num_var_interval == nstage * NS, "num_var_interval", "num_var_interval")
    C(op.num_all_stage_var == nstage * N, "num_all_stage_var", "num_all_stage_var")
    C(op.num_global_var == len(globs), "num_global_var", "num_global_var")
    C(op.has_global_var() == bool(globs), "has_global", "has_global_var")
    vec = np.arange(pos, dtype=float) * 1.5 + 0.25
    for (g, n, s), p in table.items():
        for st in (s, s - N):
            got = op.get_var_index_in_dec(g, n, st)
            C(int(got) == p and np.ndim(got) == 0, "index", lambda: f"index of {g}.{n} at stage {st}: {got}, expected {p}")
            C(float(op.get_var(vec, g, n, st)) == vec[p], "get_var", lambda: f"get_var {g}.{n} at {st}")
            rec.transition()
    for g in groups:
        C(op.get_stage_var_size(g) == len(names[g]), "size", "group size")
        for j, n in enumerate(names[g]):
            want = [table[g, n, s] for s in range(N)]
            C(list(map(int, op.get_var_index_in_dec(g, n))) == want, "trajectory", lambda: f"indices of {g}.{n}")
            C(list(op.get_var(vec, g, n)) == [vec[i] for i in want], "get_var", lambda: f"get_var {g}.{n}")
            C(op.get_var_index_in_group(g, n) == j, "in_group", lambda: f"index in group of {g}.{n}")
            for st in (N, N + 1, -N - 1, -N - 2):
                rec.expect_raises(lambda: op.get_var_index_in_dec(g, n, st), "stage-range", f"stage {st} of {N}")
                rec.transition()
        for s in range(N):
            want = [table[g, n, s] for n in names[g]]
            for st in (s, s - N):
                got = np.asarray(op.get_group_indices_at_stage(g, st))
                C(got.tolist() == want and got.dtype.kind == "i", "group-at-stage",
                  lambda: f"indices of group {g} at stage {st}: {got.tolist()} ({got.dtype}), expected {want}")
                rec.transition()
        for st in (N, -N - 1):
            rec.expect_raises(lambda: op.get_group_indices_at_stage(g, st), "stage-range", f"group stage {st}")
        want = [table[g, n, s] for s in range(N) for n in names[g]]
        got = np.asarray(op.get_group_indcies_in_dec(g))
        C(got.tolist() == want and got.dtype.kind == "i", "group-in-dec", lambda: f"indices of group {g}: {got.tolist()}")
        rec.expect_raises(lambda: op.get_var_index_in_dec(g, "nope", 0), "unknown", f"unknown name in {g}")
        rec.expect_raises(lambda: op.get_var_index_in_dec(g, "nope"), "unknown", f"unknown name in {g}")
    for i, n in enumerate(globs):
        C(int(op.get_var_index_in_dec("global", n)) == gtab[n], "global", lambda: f"global {n}")
        C(op.get_var_index_in_group("global", n) == i, "global", lambda: f"global {n} in group")
        C(float(op.get_var(vec, "global", n)) == vec[gtab[n]], "global", lambda: f"get_var global {n}")
    rec.expect_raises(lambda: op.get_var_index_in_dec("global", "nope"), "unknown", "unknown global")
    C(list(op.stage_var_names) == [f"{g}.{n}" for g in groups for n in names[g]], "names", "stage variable names")

    # structured view <-> vector
    st = op.unflatten_var(vec)
    for g in groups:
        want = np.array([[vec[table[g, n, s]] for n in names[g]] for s in range(N)]).reshape(N, len(names[g]))
        rec.close(getattr(st, g), want, "unflatten", f"unflatten {g}", rtol=0, atol=0)
        tens = np.array([[[vec[table[g, n, i * (NS - 1) + k]] for n in names[g]] for k in range(NS)]
                         for i in range(NI)]).reshape(NI, NS, len(names[g]))
        rec.close(op.get_interval_tensor(vec, g), tens, "interval-view", f"interval view of {g}", rtol=0, atol=0)
    for n in globs:
        C(float(getattr(st, n)) == vec[gtab[n]], "unflatten", lambda: f"unflatten global {n}")
    back = op.flatten_var(**{k: np.array(v) for k, v in st._asdict().items()})
    rec.close(back, vec, "roundtrip", "flatten(unflatten(x))", rtol=0, atol=0)
    given = [(k, np.array(v)) for k, v in st._asdict().items()]
    for order in (given[::-1], given[1:] + given[:1], sorted(given, key=lambda kv: kv[0])):
        rec.close(op.flatten_var(**dict(order)), vec, "roundtrip", "flatten, groups given in another order", rtol=0, atol=0)
    sv, gv = op.split_stage_and_global_vars(vec)
    rec.close(sv, vec[: nstage * N], "split", "stage part", rtol=0, atol=0)
    rec.close(gv, vec[nstage * N:], "split", "global part", rtol=0, atol=0)
    rec.close(op.merge_stage_and_global_vars(sv, gv), vec, "merge", "merged", rtol=0, atol=0)
    rec.close(op.get_stage_var_array(vec), vec[: nstage * N].reshape(N, nstage), "stage-array", "stage array", rtol=0, atol=0)
    if nstage >= 2:
        rec.nontrivial(case)
    rec.sample(case)


def run_unit(unit, rec):
    from lumos.optimal_control.utils import DecVarOperator

    if unit.get("models"):
        return _models(rec)
    if unit.get("windows"):
        return _windows(unit["windows"], rec)
    for sizes in unit["sizes"]:
        for NI in unit["ni"]:
            for NS in unit["ns"]:
                for ng in unit["ng"]:
                    orders = [GROUPS]
                    if NI == 2 and NS == 3:
                        orders = [GROUPS, GROUPS[::-1], ("inputs", "states"), ("con_outputs", "states", "inputs")]
                    for order in orders:
                        nm = _names(sizes, order)
                        if not sum(len(getattr(nm, g)) for g in order):
                            continue
                        case = dict(sizes=list(sizes), NI=NI, NS=NS, ng=ng, order=list(order))
                        rec.at(case)
                        # (in an order which is neither sorted nor the reverse of it)
                        globs = tuple(("mesh_scale", "v0", "a", "w")[:ng])
                        op = DecVarOperator(model_var_names=nm, num_intervals=NI, num_stages_per_interval=NS,
                                            stage_var_groups=order, global_var_names=globs)
                        check_operator(op, order, {g: getattr(nm, g) for g in order}, NI, NS, globs, rec, case)
                        rec.outcome(f"globals={ng}")


def _windows(most, rec):
    """The per-interval view: all windows that share their ends, and a refusal when the length leaves a rest."""
    from lumos.optimal_control.utils import batch_conv1d

    for stride in range(1, 5):
        for width in range(stride, 2 * stride + 1):
            for length in range(width, most + 1):
                for shape in ((), (1,), (3,), (2, 3)):
                    x = np.arange(length * int(np.prod(shape, dtype=int)), dtype=float).reshape(length, *shape)
                    for backend in ("numpy", "jax"):
                        rec.at(dict(stride=stride, width=width, length=length, shape=shape, backend=backend))
                        y = x.copy()
                        if (length - width) % stride:
                            rec.expect_raises(lambda: batch_conv1d(y, width, stride, backend), "windows", "a length that leaves a rest", (ValueError,))
                            continue
                        want = np.stack([x[i:i + width] for i in range(0, length - width + 1, stride)])
                        got = np.asarray(batch_conv1d(y, width, stride, backend))
                        rec.check(got.shape == want.shape, "windows", lambda: f"shape {got.shape}, expected {want.shape}")
                        rec.close(got, want, "windows", "windows", rtol=0, atol=0)
                        rec.close(y, x, "windows", "the array given", rtol=0, atol=0)
                        if len(want) > 1:
                            rec.nontrivial((stride, width, length, shape, backend))
                    rec.outcome("window shapes")


def _models(rec):
    """The layout of real problems, for every constraint-output selection of the models."""
    from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP
    from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
    from mc.models import MODELS

    for mk, outs in (("A", ["o1", "o2"]), ("AR", ["o1", "o2"]), ("B", []), ("C", ["tot", "left.f", "right.e"])):
        for r in range(len(outs) + 1):
            for sel in itertools.permutations(outs, r):
                for cls, glob in ((ScaledMeshOCP, ("mesh_scale",)), (FixedMeshOCP, ())):
                    for tr in (("LGR", {"num_stages": 2}), ("LGRIntegral", {"num_stages": 3}), ("Trapezoidal", {})):
                        case = dict(model=mk, con_outputs=list(sel), mesh=cls.__name__, tr=list(tr))
                        rec.at(case)
                        model = MODELS[mk][0]()
                        p = cls(model=model, sim_config=cls.get_sim_config(
                            num_intervals=2, transcription=tr, con_output_names=tuple(sel), backend="casadi",
                            is_cyclic=False, hessian_approximation="exact", logging_config=None))
                        names = {g: tuple(getattr(p.model.names, g)) for g in GROUPS}
                        rec.check(names["con_outputs"] == tuple(sel), "con-outputs", "order of selected outputs")
                        ns = {"LGR": 3, "LGRIntegral": 4, "Trapezoidal": 2}[tr[0]]
                        ns = p.transcription.num_stages_per_interval
                        check_operator(p.dec_var_operator, GROUPS, names, 2, ns, glob, rec, case)
                        rec.check(p.num_dec == p.dec_var_operator.num_dec, "num_dec", "problem size")
                        rec.outcome("problem layout")
