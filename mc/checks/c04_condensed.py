"""C04: condensed problems against the naive transcription with states_dot eliminated."""
import numpy as np

from mc import ocpcases as O
from mc import ref as R
from mc.checks.c01_problem import all_cases
from mc.checks.c02_derivatives import apply_scales, scales_for

CHECK = dict(
    id="C04",
    level="exploration",
    technique="exhaustive exploration of a bounded configuration space against an eliminated reference problem",
    rule="every condensed configuration of C01's space: values, first and second derivatives at generic points that "
    "also vary the unused states_dot entries, generic multipliers, with and without scales; all distinct cases count",
    assumptions=["generic points separate all terms", "for a free mesh the model does not depend explicitly on the mesh"],
    note="All configurations within the bounds; the oracle substitutes the dynamics into the collocation equations and "
    "differentiates the result exactly.",
)


def units(tier):
    return [dict(cases=c) for c in all_cases(tier, True, 64 if tier == "thorough" else 32)]


def check_case(case, rec, scaled):
    p = O.make_problem(case)
    names = O.names_of(case["model"], case["outs"])
    scales = None
    if scaled:
        scales = scales_for(case, names)
        apply_scales(p, scales, names)
    ref = O.make_ref(case, scales=scales)
    rec.check(p.num_dec == ref.n, "num_dec", lambda: f"{p.num_dec} variables, expected {ref.n}")
    w = "scaled " if scaled else ""
    for k in (0, 1):
        x = R.gen_point(ref, k)
        keep = x.copy()
        R.compare_values(p, ref, x, rec, w)
        R.compare_first(p, ref, x, rec, w)
        R.compare_second(p, ref, x, R.generic(ref.m, k + 3), 0.7 + k, rec, w)
        rec.check(np.array_equal(x, keep), "mutated", "evaluation changed the decision vector")
    # whatever sits in states_dot
    y = x.copy()
    dots = [ref.index("states_dot", n, s) for s in range(ref.N) for n in names["states"]]
    y[dots] = 3.0 * R.generic(len(dots), 7)
    rec.close(p.constraints(y), p.constraints(x), "states_dot-free", "constraints depend on states_dot", 0, 1e-12)
    R.compare_first(p, ref, y, rec, w + "changed states_dot ")
    R.compare_second(p, ref, y, R.generic(ref.m, 5), 0.4, rec, w + "changed states_dot ")
    mask = np.zeros(ref.n, bool)
    mask[dots] = True
    rec.close(p.lb[mask], np.zeros(mask.sum()), "pinned", "lower bound of states_dot", 0, 0)
    rec.close(p.ub[mask], np.zeros(mask.sum()), "pinned", "upper bound of states_dot", 0, 0)
    rec.check(bool(np.all(np.isinf(p.lb[~mask])) and np.all(np.isinf(p.ub[~mask]))), "unbounded", "other variables are bounded")
    rec.close(p.cl, np.zeros(ref.m), "con-bounds", "constraint bounds", 0, 0)
    rec.close(p.cu, np.zeros(ref.m), "con-bounds", "constraint bounds", 0, 0)


def run_unit(unit, rec):
    for i, case in enumerate(unit["cases"]):
        rec.at(case)
        check_case(case, rec, False)
        if i % 3 == 0:
            check_case(case, rec, True)
            rec.outcome("scaled")
        rec.nontrivial(case)
        rec.outcome(case["backend"])
        rec.sample(case)
