"""C05: collocation and transcription schemes, every scheme and stage count, polynomial basis."""
import itertools

import numpy as np
import scipy.special

from mc import ref as R

CHECK = dict(
    id="C05",
    level="exploration",
    technique="exhaustive enumeration of schemes, stage counts and a polynomial basis with exact integration as oracle",
    rule="all schemes and stage counts up to the bound; every monomial up to the scheme's degree (a basis, and the "
    "conditions are linear, so all polynomials of that degree), interval lengths and offsets from a grid, one to three states; "
    "non-trivial = at least 2 points",
    assumptions=["floating point tolerance 1e-7 relative to the size of the matrices"],
    note="Within the stage bound the statement is decided for all polynomials because it is linear in the polynomial.",
)


def units(tier):
    hi = 9 if tier == "quick" else 13
    out = [dict(kind="points", n=n) for n in range(1, hi + 1)]
    out += [dict(kind="support", n=n) for n in range(2, 7 if tier == "quick" else 9)]
    out += [dict(kind="scheme", name=s, ns=n, tier=tier) for s in ("LGR", "LGRIntegral") for n in range(2, hi + 1)]
    out += [dict(kind="scheme", name=s, ns=2, tier=tier) for s in ("ForwardEuler", "Trapezoidal")]
    out += [dict(kind="refused")]
    return out


def nodes(scheme, n):
    if scheme == "LG":
        return np.sort(scipy.special.roots_legendre(n)[0])
    if scheme == "LGR":
        return 2 * R.radau_points(n) - 1
    return np.concatenate([[-1.0], np.sort(scipy.special.roots_jacobi(n - 2, 1, 1)[0]) if n > 2 else [], [1.0]])


def run_unit(unit, rec):
    {"points": _points, "support": _support, "scheme": _scheme, "refused": _refused}[unit["kind"]](unit, rec)


def _points(unit, rec):
    from lumos.optimal_control import collocation as C

    n = unit["n"]
    for scheme in ("LG", "LGR", "LGL"):
        if scheme == "LGL" and n < 2:
            continue
        case = dict(scheme=scheme, n=n)
        rec.at(case)
        got = np.asarray(C.get_collocation_points(n, C.CollocationEnum[scheme]))
        rec.close(got, nodes(scheme, n), "points", f"{n} points of {scheme}", 1e-8, 1e-8)
        rec.check(bool(np.all(np.diff(got) > 0)), "order", f"{scheme} points not increasing")
        rec.nontrivial(case)
        rec.outcome(scheme)
        rec.sample(case)
    rec.at(dict(default=n))
    rec.close(C.get_collocation_points(n), nodes("LGR", n), "points", "default scheme", 1e-8, 1e-8)


def _support(unit, rec):
    """Lagrange tools on every support that is a subset of a coarse grid (and on the real ones)."""
    from lumos.optimal_control import collocation as C

    n = unit["n"]
    sups = [np.array(s) for s in itertools.combinations((-1.0, -0.55, -0.2, 0.0, 0.3, 0.45, 0.8, 1.0, 1.6), n)]
    sups += [np.append(0.0, R.radau_points(n - 1))]
    sups += [s[::-1] for s in sups[:3]]
    evals = np.array([-0.9, 0.1, 0.45, 1.0, 1.3])
    for s in sups:
        case = dict(support=s.tolist())
        rec.at(case)
        D = np.asarray(C.build_lagrange_differential_matrix(s, evals))
        I = np.asarray(C.build_lagrange_integration_matrix(s, evals))
        B = C.make_lagrange_basis(s)
        rec.check(D.shape == (5, n) and I.shape == (5, n) and len(B) == n, "shape", "matrix shapes")
        for k in range(n):
            f = s ** k
            sc = 1 + max(np.abs(D).max(), np.abs(I).max())
            want = k * evals ** (k - 1) if k else np.zeros(5)
            rec.close(D @ f, want, "differentiation", f"derivative of t^{k}", 0, 1e-9 * sc)
            want = (evals ** (k + 1) - s[0] ** (k + 1)) / (k + 1)
            rec.close(I @ f, want, "integration", f"integral of t^{k}", 0, 1e-9 * sc)
            val = sum(f[i] * B[i](evals) for i in range(n))
            rec.close(val, evals ** k, "interpolation", f"interpolation of t^{k}", 0, 1e-9 * sc)
            for i in range(n):
                rec.close(C.make_lagrange_polynomial(s, k)(s[i]), float(i == k), "basis", "Lagrange basis", 0, 1e-8 * sc)
        rec.nontrivial(case)
        rec.outcome("support")


def _scheme(unit, rec):
    from lumos.optimal_control.transcription import make_transcription

    name, ns = unit["name"], unit["ns"]
    kw = {"num_stages": ns} if name.startswith("LGR") else None
    tr = make_transcription(name, kw)
    rec.at(dict(unit))
    rec.check(tr.num_stages_per_interval == ns, "stages", lambda: f"{tr.num_stages_per_interval} stages, expected {ns}")
    rec.check(tr.num_constraints_per_interval == ns - 1, "constraints", "number of constraints per interval")
    pts, Aref, Bref = R.scheme_matrices(name, ns)
    A, B = (np.asarray(m, dtype=float) for m in tr.get_continuity_matrices())
    sc = 1 + np.abs(Aref).max()
    rec.close(A, Aref, "A", "state matrix", 1e-9, 1e-8 * sc)
    rec.close(B, Bref, "B", "derivative matrix", 1e-9, 1e-8 * sc)
    if name.startswith("LGR"):
        rec.close(tr.interp_points, pts, "interp", "interpolation points", 1e-8, 1e-8)
        rec.close(tr.collocation_points, pts[1:], "coll", "collocation points", 1e-8, 1e-8)
    deg = {"ForwardEuler": 1, "Trapezoidal": 2, "LGR": ns - 1, "LGRIntegral": ns}[name]
    lengths = (1e-3, 0.25, 1.0, 3.7, 40.0)
    for T in lengths:
        for t0 in (0.0, 1.5):
            for k in range(deg + 1):
                case = dict(unit, T=T, t0=t0, k=k)
                rec.at(case)
                # trajectory ((t - t0)/T)**k plus its mirror, two states
                x = np.stack([pts ** k, 2.0 * (1 - pts) ** k], axis=1)
                xd = np.stack([(k * pts ** (k - 1) if k else 0 * pts) / T,
                               -2.0 * (k * (1 - pts) ** (k - 1) if k else 0 * pts) / T], axis=1)
                con = np.asarray(tr.continuity_con(x, xd, T))
                rec.close(con, np.zeros((ns - 1, 2)), "exactness", f"continuity of a degree-{k} trajectory", 0, 1e-7 * sc)
                rec.nontrivial(case)
                # a trajectory with a wrong end point is not accepted
                for i in range(1, ns):
                    y = x.copy()
                    y[i, 0] += 0.1
                    bad = np.asarray(tr.continuity_con(y, xd, T))
                    rec.check(np.abs(bad[:, 0]).max() > 1e-3, "accepts-wrong", f"perturbed stage {i} is accepted")
                    rec.check(np.abs(bad[:, 1]).max() < 1e-7 * sc, "mixing", "perturbation leaks into another state")
    rec.outcome(name)
    rec.sample(dict(unit))
    if name == "LGRIntegral":
        d = make_transcription("LGR", kw)
        Ad, Bd = d.get_continuity_matrices()
        for k in range(ns):
            x, xd = pts ** k, (k * pts ** (k - 1) if k else 0 * pts)
            rec.close(Ad @ x - Bd @ xd, A @ x - B @ xd, "forms", "differential and integral form disagree", 0, 1e-7 * sc)
    if unit["ns"] == 3 or not name.startswith("LGR"):
        # default number of stages, and from a configuration string
        t2 = make_transcription(name)
        rec.close(t2.get_continuity_matrices()[0], Aref, "default", "default stages", 1e-9, 1e-8)
        rec.close(t2.get_continuity_matrices()[1], Bref, "default", "default stages", 1e-9, 1e-8)


def _refused(unit, rec):
    from lumos.optimal_control import collocation as C
    from lumos.optimal_control.transcription import get_transcription_options, make_transcription

    rec.check(set(get_transcription_options()) == {"ForwardEuler", "Trapezoidal", "LGR", "LGRIntegral"}, "options",
              "published list of schemes")
    for n in ("lgr", "", "RK4", "Transcription", "Collocation", None):
        rec.at(dict(name=n))
        rec.expect_raises(lambda: make_transcription(n), "unknown-scheme", f"scheme {n!r}")
        rec.nontrivial(n)
    for n in (1, 0, -1):
        for s in ("LGR", "LGRIntegral"):
            rec.at(dict(name=s, num_stages=n))
            rec.expect_raises(lambda: make_transcription(s, {"num_stages": n}), "stage-count", f"{s} with {n} stages")
            rec.nontrivial([s, n])
    for sch in ("LGR", "lg", None, 0):
        rec.at(dict(scheme=sch))
        rec.expect_raises(lambda: C.get_collocation_points(3, sch), "scheme-type", f"scheme {sch!r}")
    for n in (0, -2):
        for sch in C.CollocationEnum:
            rec.at(dict(n=n))
            rec.expect_raises(lambda: C.get_collocation_points(n, sch), "points-count", f"{n} points")
    rec.outcome("refused", 1)
