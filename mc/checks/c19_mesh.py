"""C19: meshes - all interval points over a grid, all ways to state them, malformed ones refused."""
import itertools

import numpy as np

from mc import ocpcases as O
from mc import ref as R

CHECK = dict(
    id="C19",
    level="exploration",
    technique="exhaustive enumeration of meshes (all increasing interval points over a grid, interval counts, schemes, ways to state "
    "them) and of all sequences of accepted and refused mesh statements on the real problems, against independently computed "
    "stage positions, interval lengths and constraint values",
    rule="every increasing subset of the grid as interval points x scheme x problem kind; every malformed variant; all sequences of "
    "mesh statements up to the depth bound; a case is one statement or sequence",
    assumptions=["interval points within 1e-6 of 0 and 1 at the ends count as normalised, as documented in the code"],
    note="All meshes over the grid, all malformed variants and all statement sequences within the bounds.",
)
SCHEMES = [(("ForwardEuler",), "ForwardEuler", 2), ("Trapezoidal", "Trapezoidal", 2), ("LGR", "LGR", 3), (("LGR", {"num_stages": 2}), "LGR", 2),
           (("LGR", {"num_stages": 5}), "LGR", 5), (("LGRIntegral", {"num_stages": 4}), "LGRIntegral", 4), (("LGRIntegral",), "LGRIntegral", 3),
           (("LGR", {}), "LGR", 3), (("Trapezoidal", {}), "Trapezoidal", 2), (["LGR", {"num_stages": 4}], "LGR", 4)]


def all_points(ni, m):
    """All increasing interval points with inner points among k/m."""
    for inner in itertools.combinations(range(1, m), ni - 1):
        yield np.array([0.0] + [k / m for k in inner] + [1.0])


def tiny(ni):
    """One interval very small, the others even; and points very close to even ones."""
    for d in (1e-3, 1e-6, 1e-8):
        for i in range(ni if ni > 1 else 0):
            w = np.full(ni, (1 - d) / (ni - 1))
            w[i] = d
            yield np.concatenate([[0.0], np.cumsum(w)[:-1], [1.0]])
        for i in range(1, ni):
            q = np.linspace(0, 1, ni + 1)
            q[i] += d
            yield q


def build(kind, si, ni, pts, condensed=False, model="AMC"):
    from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
    from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP
    from mc.models import MODELS

    np.random.seed(5)
    cls = ScaledMeshOCP if kind == "free" else FixedMeshOCP
    conf = cls.get_sim_config(num_intervals=ni, interval_points=pts, transcription=SCHEMES[si][0], backend="custom", is_condensed=condensed)
    m = MODELS[model][0]()
    return cls(model=m, sim_config=conf) if kind == "free" else cls(model=m, sim_config=conf, mesh_scale=float(kind))


def reference(kind, si, ni, pts, condensed=False, model="AMC"):
    _, name, ns = SCHEMES[si]
    pts = np.linspace(0, 1, ni + 1) if pts is None else np.array(pts, float)
    return R.RefOCP(O.names_of(model, []), __import__("mc.models", fromlist=["MODELS"]).MODELS[model][1], O.default_params(model), pts, name, ns,
                    mesh_scale=None if kind == "free" else float(kind), condensed=condensed)


def positions(si, pts):
    return R.stage_mesh(np.array(pts, float), R.scheme_matrices(*SCHEMES[si][1:])[0])


def check_mesh(p, kind, si, pts, rec, what, scale=None):
    """Stage positions as seen from outside."""
    want = positions(si, pts)
    ns = SCHEMES[si][2]
    rec.check(p.num_stages == len(want), "stages", lambda: f"{what}: {p.num_stages} stages, expected {len(want)}")
    for s in (1.0, 2.5, 0.0, 1e3):
        rec.close(p.get_mesh_from_scale(s), want * s, "positions", f"{what}: stage positions at scale {s}", rtol=1e-12, atol=1e-13 * max(s, 1))
    m = np.asarray(p.get_mesh_from_scale(1.0))
    rec.check(bool(np.all(np.diff(m) > 0)), "increasing", f"{what}: stage positions {m} do not increase")
    rec.close(m[::ns - 1], pts, "ends", f"{what}: interval ends", rtol=1e-12, atol=1e-13)
    rec.close([m[0], m[-1]], [pts[0], pts[-1]], "ends", f"{what}: ends of the mesh", rtol=1e-13, atol=1e-14)
    x = np.linspace(-1, 2, p.num_dec)
    if kind == "free":
        x[-1] = 7.25
    sc = 7.25 if kind == "free" else (float(kind) if scale is None else scale)
    rec.close(np.ravel(p.get_mesh_from_dec_var(x)), want * sc, "positions", f"{what}: mesh of a decision vector", rtol=1e-12, atol=1e-12)
    if kind != "free":
        rec.close(p.get_mesh(), want * sc, "positions", f"{what}: fixed mesh", rtol=1e-12, atol=1e-12)
    m[:] = -5.0  # what is handed out is not the problem's own
    rec.close(p.get_mesh_from_scale(1.0), want, "aliased", f"{what}: stage positions after the returned array was changed", rtol=1e-12)


def malformed(pts):
    """(name, interval points) that must be refused for a problem with len(pts) - 1 intervals."""
    n = len(pts)
    out = [("short", pts[:-1]), ("long", np.append(pts, 1.5)), ("longer", np.insert(pts, 1, pts[1] / 2)), ("no points", np.array([])),
           ("late start", np.append(1e-5, pts[1:])), ("early start", np.append(-1e-5, pts[1:])), ("early end", np.append(pts[:-1], 1 - 1e-5)),
           ("late end", np.append(pts[:-1], 1 + 1e-5)), ("scaled", pts * 100.0), ("shifted", pts + 1.0), ("reversed", pts[::-1].copy()), ("nan", np.append(pts[:-1], np.nan)),
           ("nan start", np.append(np.nan, pts[1:]))]
    for i in range(n - 1):
        q = pts.copy()
        q[i + 1] = q[i]
        out.append((f"repeated {i}", q))
        q = pts.copy()
        q[i], q[i + 1] = q[i + 1], q[i]
        out.append((f"swapped {i}", q))
    for i in range(1, n - 1):
        for v in (-0.5, 1.5, np.nan, np.inf, -np.inf):
            q = pts.copy()
            q[i] = v
            out.append((f"{v} at {i}", q))
    return out


def units(tier):
    quick = tier == "quick"
    out = []
    for si in range(len(SCHEMES)):
        out.append(dict(kind="grid", si=si, m=8 if quick else 12, ni=4 if quick else 6))
        out.append(dict(kind="malformed", si=si))
    for si in (1, 2, 5):
        for kind in ("free", "2.0"):
            for cond in (False, True):
                out.append(dict(kind="history", si=si, problem=kind, condensed=cond, depth=3 if quick else 4))
    out.append(dict(kind="uniform", n=40 if quick else 150))
    out.append(dict(kind="config"))
    return out


def run_unit(unit, rec):
    dict(grid=run_grid, malformed=run_malformed, history=run_history, uniform=run_uniform, config=run_config)[unit["kind"]](unit, rec)


def run_grid(unit, rec):
    si = unit["si"]
    for ni in range(1, unit["ni"] + 1):
        kinds = ["free", "0.5", "300.0"]
        probs = {k: build(k, si, ni, None) for k in kinds}
        for k, p in probs.items():
            rec.at(dict(scheme=SCHEMES[si][0], kind=k, intervals=ni))
            check_mesh(p, k, si, np.linspace(0, 1, ni + 1), rec, f"{ni} uniform intervals")
        for j, pts in enumerate(itertools.chain(all_points(ni, unit["m"]), tiny(ni))):
            for k in kinds:
                rec.at(dict(scheme=SCHEMES[si][0], kind=k, points=pts.tolist()))
                fresh = build(k, si, ni, pts if j % 2 else pts.tolist())
                check_mesh(fresh, k, si, pts, rec, "built")
                q = pts.copy()
                probs[k].set_normalized_mesh(q)
                q[:] = 0.5  # the caller goes on using its array
                check_mesh(probs[k], k, si, pts, rec, "set")
                rec.nontrivial((si, k, pts.tolist()))
            if j % 6 == 0:  # what the constraints make of it
                k = kinds[j % 3]
                ref = reference(k, si, ni, pts)
                x = R.gen_point(ref, j)
                rec.close(probs[k].constraints(x), ref.cons(x)[R.perm(probs[k], ref)], "constraints", "constraints on this mesh")
                rec.outcome("constraints compared")
    rec.outcome("meshes")


def run_malformed(unit, rec):
    si = unit["si"]
    for ni in (1, 2, 3):
        for pts in all_points(ni, 5):
            for kind in ("free", "2.0"):
                p = build(kind, si, ni, pts)
                for name, bad in malformed(pts):
                    rec.at(dict(scheme=SCHEMES[si][0], kind=kind, points=pts.tolist(), malformed=name))
                    rec.expect_raises(lambda: p.set_normalized_mesh(bad), "accepted", f"interval points {bad}")
                    check_mesh(p, kind, si, pts, rec, f"after refusing {name}")
                    rec.expect_raises(lambda: build(kind, si, ni, bad), "accepted", f"problem with interval points {bad}")
                    rec.nontrivial((si, kind, pts.tolist(), name))
                    rec.outcome("refused")
                # within the documented tolerance
                near = pts.copy()
                near[0], near[-1] = 1e-8, 1 - 1e-8
                p.set_normalized_mesh(near)
                check_mesh(p, kind, si, near, rec, "nearly normalised")


def run_history(unit, rec):
    """Sequences of mesh statements; constraints and positions after each."""
    si, kind, cond, ni = unit["si"], unit["problem"], unit["condensed"], 3
    A, B = np.array([0.0, 0.2, 0.3, 1.0]), np.array([0.0, 0.5, 0.9, 1.0])
    ops = [("mesh", A), ("mesh", B), ("mesh", None), ("bad", A[::-1]), ("bad", B[:-1]), ("bad", B * 2), ("eval",)]
    if kind != "free":
        ops += [("scale", 0.7), ("scale", 40.0)]
    refs = {}
    for d in range(1, unit["depth"] + 1):
        for seq in itertools.product(range(len(ops)), repeat=d):
            if d > 1 and ops[seq[-1]][0] == "eval":
                continue
            rec.at(dict(scheme=SCHEMES[si][0], kind=kind, condensed=cond, ops=[[ops[i][0], np.asarray(ops[i][-1]).tolist() if len(ops[i]) > 1 and ops[i][1] is not None else None] for i in seq]))
            p = build(kind, si, ni, None, cond)
            cur, scale = np.linspace(0, 1, ni + 1), None if kind == "free" else float(kind)
            for i in seq:
                op = ops[i]
                if op[0] == "mesh":
                    p.set_normalized_mesh(None if op[1] is None else op[1].copy())
                    cur = np.linspace(0, 1, ni + 1) if op[1] is None else op[1]
                elif op[0] == "bad":
                    rec.expect_raises(lambda: p.set_normalized_mesh(op[1]), "accepted", f"interval points {op[1]}")
                elif op[0] == "scale":
                    p.set_mesh_scale(op[1])
                    scale = op[1]
                else:
                    p.constraints(np.ones(p.num_dec))
                rec.transition()
            check_mesh(p, kind, si, cur, rec, "after the sequence", scale)
            key = (tuple(cur), scale)
            if key not in refs:
                refs[key] = reference("free" if kind == "free" else str(scale), si, ni, cur, cond)
            ref = refs[key]
            x = R.gen_point(ref, 2)
            rec.close(p.constraints(x), ref.cons(x)[R.perm(p, ref)], "constraints", "constraints after the sequence")
            rec.state((si, kind, cond, key))
            rec.nontrivial((si, kind, cond, seq))
    rec.outcome("histories")


def run_uniform(unit, rec):
    for n in list(range(1, unit["n"] + 1)) + [99]:
        for si in (0, 1, 2, 4, 6):
            for kind in ("free", "4000.0"):
                rec.at(dict(scheme=SCHEMES[si][0], kind=kind, intervals=n))
                p = build(kind, si, n, None, model="BC") if "BC" in __import__("mc.models", fromlist=["MODELS"]).MODELS else build(kind, si, n, None)
                check_mesh(p, kind, si, np.linspace(0, 1, n + 1), rec, f"{n} uniform intervals")
                rec.nontrivial((si, kind, n))


def run_config(unit, rec):
    """Fixed mesh scales that are not positive, and interval counts that are not, are refused."""
    for bad in (0.0, -1.0, -1e-9, np.nan):
        rec.at(dict(mesh_scale=bad))
        rec.expect_raises(lambda: build(str(bad), 1, 2, None), "accepted", f"mesh scale {bad}")
        rec.nontrivial(("scale", str(bad)))
    for n in (0, -1):
        rec.at(dict(intervals=n))
        rec.expect_raises(lambda: build("free", 1, n, None), "accepted", f"{n} intervals")
        rec.nontrivial(("intervals", n))
