"""C02: gradient, Jacobian, Hessian and their structures on every small configuration."""
import numpy as np

from mc import ocpcases as O
from mc import ref as R
from mc.checks.c01_problem import all_cases

CHECK = dict(
    id="C02",
    level="exploration",
    technique="exhaustive exploration of a bounded configuration space against exact reference derivatives",
    rule="every configuration of C01's space; derivatives summed from (structure, values) into dense matrices and "
    "compared with casadi derivatives of the naive transcription at generic points, for generic multipliers and, for "
    "small problems, every unit multiplier; also after a generic scaling; problems written as functions of jax numbers "
    "(automatic derivatives), all sizes, several at once; non-trivial = more than 2 variables per stage",
    assumptions=["generic points separate all terms", "for a free mesh the model does not depend explicitly on the mesh"],
    note="All configurations within the bounds; oracle derivatives are computed by casadi from the reference formulas, "
    "not from lumos functions.",
)


def units(tier):
    out = [dict(cases=c, tier=tier) for c in all_cases(tier, False, 64 if tier == "thorough" else 32)]
    return out + [dict(plain=True, n=4 if tier == "thorough" else 3)]


def run_plain(unit, rec):
    """Problems given as functions of jax numbers only."""
    import casadi as cas
    import jax.numpy as jnp

    from lumos.optimal_control.nlp import NLPFunction

    def funs(ns, x, n, m, a):
        f = a * x[0] ** 3 + sum((i + 1.5) * x[i] * x[i - 1] ** 2 for i in range(n)) + ns.sin(x[n - 1] * x[0])
        c = [(j + a) * x[j % n] ** 2 * x[(j + 1) % n] + ns.cos(x[(j + 2) % n]) for j in range(m)]
        return f, c

    class Plain(NLPFunction):
        def __init__(self, n, m, a):
            self.num_dec, self.num_con, self.a = n, m, a

        def _compute_objective(self, x):
            return funs(jnp, x, self.num_dec, self.num_con, self.a)[0]

        def constraints(self, x):
            return jnp.array(funs(jnp, x, self.num_dec, self.num_con, self.a)[1])

    sizes = [(n, m) for n in range(1, unit["n"] + 1) for m in range(1, unit["n"] + 1)]
    probs = [(Plain(n, m, a), n, m, a) for n, m in sizes for a in (0.7, -1.3)]
    for k in range(2):  # all problems exist at the same time, and are used in turns
        for p, n, m, a in probs:
            rec.at(dict(plain=[n, m, a], point=k))
            X, L, o = cas.SX.sym("x", n), cas.SX.sym("l", m), cas.SX.sym("o")
            f, c = funs(cas, [X[i] for i in range(n)], n, m, a)
            c = cas.vertcat(*c)
            H = cas.hessian(o * f + cas.dot(L, c), X)[0]
            want = cas.Function("w", [X, L, o], [f, c, cas.gradient(f, X), cas.jacobian(c, X), H])
            x, lam = R.generic(n, 3 + k), R.generic(m, 8 + k)
            v = [np.array(q) for q in want(x, lam, 0.6)]
            rec.close(p.objective(x), v[0].ravel()[0], "plain", "objective")
            rec.close(p.constraints(x), v[1].ravel(), "plain", "constraints")
            rec.close(p.gradient(x), v[2].ravel(), "plain", "gradient")
            rec.close(np.reshape(p.jacobian(x), (m, n)), v[3], "plain", "Jacobian")
            r, cc = p.hessianstructure()
            rec.check(len(set(zip(r, cc))) == n * (n + 1) // 2 == len(r) and np.all(np.asarray(r) <= np.asarray(cc)), "plain", "structure of the Hessian")
            h = np.zeros((n, n))
            h[r, cc] = p.hessian(x, lam, 0.6)
            rec.close(h, np.triu(v[4]), "plain", "Hessian")
            rec.close(p.lagrangian(x, lam, 0.6), 0.6 * v[0].ravel()[0] + lam @ v[1].ravel(), "plain", "Lagrangian")
            rec.nontrivial(("plain", n, m, a, k))


def scales_for(case, names):
    """A generic scale for every variable."""
    s, i = {}, 0
    for g in R.GROUPS:
        for n in names["states" if g == "states_dot" else g]:
            i += 1
            s[g, n] = round(0.4 + 0.37 * i, 3)
    if case["kind"] == "free":
        s["global", "mesh_scale"] = 2.6
    return s


def apply_scales(p, scales, names):
    from lumos.optimal_control.config import ScaleConfig

    dots = dict(zip(names["states"], p.model.get_group_names("states_dot")))
    p.set_scales(tuple(ScaleConfig(g, dots[n] if g == "states_dot" else n, v) for (g, n), v in scales.items()))


def check_case(case, rec, tier, scaled=False):
    p = O.make_problem(case)
    names = O.names_of(case["model"], case["outs"])
    scales = None
    if scaled:
        scales = scales_for(case, names)
        apply_scales(p, scales, names)
    ref = O.make_ref(case, scales=scales)
    w = "scaled " if scaled else ""
    for k in (0, 1):
        R.compare_first(p, ref, R.gen_point(ref, k), rec, w)
        R.compare_second(p, ref, R.gen_point(ref, k), R.generic(ref.m, k + 3), 0.7 + k, rec, w)
    R.compare_second(p, ref, R.gen_point(ref, 0), np.zeros(ref.m), 1.3, rec, w)
    if ref.N <= 2 and not scaled and case["backend"] == "casadi":
        for i in range(ref.m):
            e = np.zeros(ref.m)
            e[i] = 1.0
            R.compare_second(p, ref, R.gen_point(ref, 1), e, 0.0, rec, "unit multiplier ")
            rec.outcome("unit multiplier")


def run_unit(unit, rec):
    if unit.get("plain"):
        run_plain(unit, rec)
        return
    for i, case in enumerate(unit["cases"]):
        rec.at(case)
        check_case(case, rec, unit["tier"])
        if i % 3 == 0:
            check_case(case, rec, unit["tier"], scaled=True)
            rec.outcome("scaled")
        rec.nontrivial(case)
        rec.outcome(case["backend"])
        rec.sample(case)
