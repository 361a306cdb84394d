"""C01: constraints and objective of every small configuration against the naive transcription."""
import numpy as np

from mc import ocpcases as O
from mc import ref as R

CHECK = dict(
    id="C01",
    level="exploration",
    technique="exhaustive exploration of a bounded configuration space against a reference transcription",
    rule="every combination of model shape, constraint outputs, scheme, stages, intervals, spacing, backend, "
    "cyclicity and mesh kind, each evaluated at generic points; non-trivial = more than one stage pair or con output",
    assumptions=["generic points separate all terms of the (polynomial/trigonometric) constraint functions",
                 "for a free mesh the model does not depend explicitly on the mesh (documented limitation)"],
    note="All configurations within the bounds; constraint rows are compared individually with a loop-based reference.",
)


def all_cases(tier, condensed, n):
    M, S = O.SMALL, O.SCHEMES
    kinds = ["free", "1.0", "2.5"]
    if tier == "thorough":
        cs = list(O.product(["A", "AR", "AM", "B", "L", "C", "N", "K"], ["casadi"], S + [("LGR", 6), ("LGRIntegral", 5)], M, kinds, condensed))
        cs += list(O.product(["AC", "ARC", "AMC"], ["custom"], S, ["1", "2n", "3n"], kinds, condensed))
        cs += list(O.product(["A", "AR", "AM", "B", "L", "C", "N", "K"], ["jax"], [("Trapezoidal", 2), ("LGR", 3), ("LGRIntegral", 4)],
                             ["1", "2n", "3n"], kinds, condensed, cyc_idx=[0, 2]))
    else:
        cs = list(O.product(["A", "AR", "AM", "B", "L", "C", "N", "K"], ["casadi"], S, ["1", "2n", "3", "3n"], ["free", "2.5"], condensed))
        cs += list(O.product(["AC", "ARC", "AMC"], ["custom"], [("ForwardEuler", 2), ("LGR", 3), ("LGRIntegral", 4)],
                             ["1", "3n"], ["free", "2.5"], condensed, outs_idx=[0]))
        cs += list(O.product(["A", "AR", "AM", "B", "L", "C", "N", "K"], ["jax"], [("Trapezoidal", 2), ("LGR", 3)], ["2n"],
                             ["free", "2.5"], condensed, cyc_idx=[0, 2], outs_idx=[0]))
    # many stages
    for models, backend in ((["C", "AM", "N", "K"], "casadi"), (["AMC", "ARC"], "custom"), (["AR"], "jax")):
        for i, (scheme, mesh, kind) in enumerate(((("Trapezoidal", 2), "120", "2.5"), (("LGR", 4), "37n", "free"), (("LGRIntegral", 3), "37n", "2.5"))):
            if backend == "jax" and i != 1:
                continue
            big = list(O.product(models, [backend], [scheme], [mesh], [kind], condensed, cyc_idx=[2]))
            cs += [c for c in big if c["outs"]]
    # interleave so that every unit has the same mix
    return [cs[i::n] for i in range(n) if cs[i::n]]


def units(tier):
    return [dict(cases=c) for c in all_cases(tier, False, 64 if tier == "thorough" else 32)]


def check_case(case, rec):
    rec.at(case)
    p = O.make_problem(case)
    ref = O.make_ref(case)
    rec.check(p.num_dec == ref.n, "num_dec", lambda: f"{p.num_dec} variables, expected {ref.n}")
    for k in (0, 1):
        R.compare_values(p, ref, R.gen_point(ref, k), rec)
    for nm, v in (("cl", p.cl), ("cu", p.cu)):
        rec.close(v, np.zeros(ref.m), "con-bounds", f"constraint bound {nm}", 0, 0)
    if case["ns"] > 2 or case["outs"] or ref.NI > 1:
        rec.nontrivial(case)
    rec.outcome(case["backend"])
    rec.outcome(case["scheme"])
    rec.outcome("cyclic" if case["cyclic"] is not None else "acyclic")
    rec.sample(case)


def run_unit(unit, rec):
    for case in unit["cases"]:
        check_case(case, rec)
