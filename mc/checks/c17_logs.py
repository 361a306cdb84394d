"""C17: iteration logs under every sequence of solver callbacks."""
import glob
import itertools
import os

import numpy as np

from mc import stub

stub.install()

from mc import core  # noqa: E402
from mc import ocpcases as O  # noqa: E402
from mc import ref as R  # noqa: E402
from mc.models import MODELS, NpNs  # noqa: E402

CHECK = dict(
    id="C17",
    level="model_checking",
    technique="exhaustive enumeration of solver callback sequences (regular step, rejected trial points, restoration step, "
    "return from restoration, failure, no callback) over several solves, played to the real problem by a stand-in solver; "
    "log files compared with the played history; the alphabet is bound to the solver by replaying real Ipopt runs",
    rule="all callback words up to the length bound x endings x sampling settings for one solve, all sequences of up to three "
    "solves over a smaller alphabet, nested solves of two problems, and real solver runs; a state is the history of callbacks "
    "played, a trace one sequence of solves on a fresh problem",
    assumptions=["the solver evaluates the accepted point last before it reports an iteration, as the recorded real runs do",
                 "a failed solve (status -13) is reported by an exception and leaves the combined logs of the last finished one"],
    note="Every callback history within the bounds, against the history itself and an independent problem statement.",
)
METRICS = ["alg_mod", "iter_count", "obj_value", "inf_pr", "inf_du", "mu", "d_norm", "regularization_size", "alpha_du",
           "alpha_pr", "ls_trials"]
CASES = [
    dict(model="A", outs=["o2", "o1"], backend="casadi", scheme="LGR", ns=3, mesh="2n", kind="free", cyclic=["states.time"], condensed=False),
    dict(model="ARC", outs=["o1"], backend="custom", scheme="Trapezoidal", ns=2, mesh="3n", kind="2.0", cyclic=None, condensed=False),
    dict(model="AR", outs=["o2"], backend="casadi", scheme="LGRIntegral", ns=3, mesh="2n", kind="free", cyclic=["inputs.w", "states.time"], condensed=True),
    dict(model="ARC", outs=[], backend="custom", scheme="ForwardEuler", ns=2, mesh="2", kind="0.5", cyclic=["states.time"], condensed=True),
    dict(model="B", outs=[], backend="casadi", scheme="LGR", ns=2, mesh="1", kind="free", cyclic=None, condensed=False),
]
SCALES = [[], [("states", "time", 4.0), ("inputs", "u", 0.5)], [("states", "time", 0.25), ("global", "mesh_scale", 8.0)]]
DIRS = ["plain", "with space", "br[a-c]ket", "st*r?", "a/b", "x.csv"]


class World:
    """A problem with logging, and an independent statement of it."""

    def __init__(self, ci, si, di, every, root):
        from lumos.optimal_control.config import LoggingConfig, ScaleConfig

        case = CASES[ci]
        self.case = case
        sc = [s for s in SCALES[si] if s[0] != "global" or case["kind"] == "free"]
        self.p = O.make_problem(
            case, scales=tuple(ScaleConfig(*s) for s in sc),
            logging_config=LoggingConfig(sim_name=DIRS[di].replace("/", "_"), results_dir=os.path.join(root, DIRS[di]), log_every_nth_iter=every))
        self.ref = O.make_ref(case, scales={(g, n): v for g, n, v in sc})
        self.every = every
        self.finished = None  # history of the last solve that finished with at least one iteration
        self.n = 0

    def point(self):
        """A new scaled point (in lumos' order), never the same twice."""
        self.n += 1
        return R.gen_point(self.ref, self.n)

    @property
    def dir(self):
        return self.p.logging_dir


def expected_table(w, x):
    """All columns of the log for one (scaled) iterate."""
    p, ref = w.p, w.ref
    z = x * ref.s
    cols = {}
    names = ref.names
    dec = {}
    for g in ("states", "inputs", "states_dot", "con_outputs"):
        for j, n in enumerate(names[g]):
            dec[(g, n)] = np.array([z[s * ref.per + ref.off[g] + j] for s in range(ref.N)])
            cols[f"{g}.{n}"] = dec[(g, n)]
    scale = z[-1] if w.case["kind"] == "free" else float(w.case["kind"])
    mesh = ref.mesh * scale
    cols["mesh"] = mesh
    prm = O.default_params(w.case["model"])
    ys = []
    for s in range(ref.N):
        _, y = MODELS[w.case["model"]][1](NpNs, {n: dec[("states", n)][s] for n in names["states"]},
                                          {n: dec[("inputs", n)][s] for n in names["inputs"]}, mesh[s], prm)
        ys.append(y)
    for n in ys[0]:
        cols[f"outputs.{n}"] = np.array([float(y[n]) for y in ys])
    c = ref.split(ref.cons(x))
    if w.case["condensed"]:
        k = (ref.N - 1) * len(names["states"])
        inter, stage = np.split(c["model_algebra"], [k])
        rows = [f"stage_con.{n}" for n in list(names["con_outputs"]) + list(names["residuals"])]
    else:
        inter, stage = c["continuity"], c["model_algebra"]
        rows = [f"stage_con.{n}" for n in list(names["states"]) + list(names["con_outputs"]) + list(names["residuals"])]
    inter = np.vstack([np.zeros(len(names["states"])), inter.reshape(ref.N - 1, -1)])
    for j, n in enumerate(names["states"]):
        cols[f"interval_con.{n}"] = inter[:, j]
    stage = stage.reshape(ref.N, len(rows))
    if not w.case["condensed"]:
        rows = [r if i >= len(names["states"]) else None for i, r in enumerate(rows)]
        for j, n in enumerate(p.model.get_group_names("states_dot")):
            cols[f"stage_con.{n}"] = stage[:, j]
    for j, r in enumerate(rows):
        if r is not None:
            cols[r] = stage[:, j]
    if w.case["cyclic"] is not None:
        for gn, v in zip(O.cyclic_vars(names, w.case["cyclic"]), c["cyclic"]):
            cols[f"cyclic_con.{gn}"] = np.append(np.zeros(ref.N - 1), v)
    return cols


def rename(p, cols):
    """states_dot columns carry the model's own names."""
    sd = dict(zip(p.model.get_group_names("states"), p.model.get_group_names("states_dot")))
    return {("states_dot." + sd[k[11:]] if k.startswith("states_dot.") else k): v for k, v in cols.items()}


def check_rows(w, rec, df, x, it, what):
    cols = rename(w.p, expected_table(w, x))
    rec.check(len(df) == w.ref.N, "rows", lambda: f"{what}: {len(df)} rows for {w.ref.N} stages")
    rec.check(bool(np.all(df["iter"] == it)), "iter", f"{what}: iteration numbers {list(df['iter'])}, expected {it}")
    rec.check(set(df.columns) == set(cols) | {"iter"}, "columns", lambda: f"{what}: columns differ by {set(df.columns) ^ set(cols)}")
    for k, v in cols.items():
        rec.close(df[k].to_numpy(), v, "values", f"{what}: {k}", rtol=1e-9, atol=1e-10)
    return cols


def check_logs(w, rec, what):
    """The files against the last finished history: [(iteration, metrics, point)] with distinct iterations."""
    import pandas as pd

    hist = w.finished
    d = w.dir
    if hist is None:
        return
    last_it, _, last_x = hist[-1]
    df = pd.read_csv(os.path.join(d, "results.csv"))
    check_rows(w, rec, df, last_x, last_it, f"{what}: results")
    mh = pd.read_csv(os.path.join(d, "metrics_history.csv"))
    rec.check(list(mh["iter_count"]) == [h[0] for h in hist], "history",
              lambda: f"{what}: history of iterations {list(mh['iter_count'])}, solver reported {[h[0] for h in hist]}")
    for j, m in enumerate(METRICS):
        rec.close(mh[m].to_numpy(), [h[1][j] for h in hist], "metrics", f"{what}: {m}", rtol=1e-12, atol=0)
    if w.every > 0:
        want = [h for h in hist if h[0] % w.every == 0 or h[0] == last_it]
        al = pd.read_parquet(os.path.join(d, "all_iters.parquet"))
        N = w.ref.N
        rec.check(list(al["iter"]) == [h[0] for h in want for _ in range(N)], "all-iters",
                  lambda: f"{what}: iterations {list(al['iter'])[::N]} recorded, expected {[h[0] for h in want]}")
        for k, h in enumerate(want):
            cols = check_rows(w, rec, al.iloc[k * N:(k + 1) * N], h[2], h[0], f"{what}: iteration {h[0]}")
            row = mh[mh["iter_count"] == h[0]].iloc[0]
            cons = {c: v for c, v in cols.items() if "_con." in c}
            big = max(np.max(np.abs(v)) for v in cons.values())
            name, at = row["max_violation_con_name"], row["max_violation_mesh"]
            rec.check(name in cons, "worst", lambda: f"{what}: largest violation {name} at iteration {h[0]}")
            pos = int(np.argmin(np.abs(cols["mesh"] - at)))
            rec.close(at, cols["mesh"][pos], "worst", f"{what}: mesh of the largest violation", rtol=1e-9)
            rec.close(abs(cons[name][pos]), big, "worst", f"{what}: largest violation at iteration {h[0]}", rtol=1e-9)
        left = glob.glob(os.path.join(glob.escape(d), "iter*.csv"))
        if not w.failed_after:
            rec.check(not left, "left", f"{what}: iteration files left {left}")
    else:
        rec.check(not os.path.exists(os.path.join(d, "all_iters.parquet")), "not-asked", f"{what}: iterations recorded with sampling off")


def words(maxlen):
    """All callback words: r regular, t regular after rejected trial points, s restoration step, d return from restoration."""
    out = [""]
    frontier = [""]
    for _ in range(maxlen):
        nxt = []
        for wd in frontier:
            for a in "rtsd":
                if not wd and a in "sd" or a == "d" and wd[-1] != "s":
                    continue
                nxt.append(wd + a)
        out += nxt
        frontier = nxt
    return out


def play(w, rec, word, end, start=0, nested=None):
    """Run one solve playing `word`; returns nothing, updates w.finished."""
    p, ref = w.p, w.ref
    hist = []

    def report(mode, it, x):
        m = [float(mode), it] + [float(v) for v in R.generic(9, w.n)]
        m[-1] = w.n  # ls_trials is an integer
        p.intermediate(mode, it, *m[2:])
        if not hist or hist[-1][0] != it:
            hist.append((it, m, x.copy()))

    def evaluate(x):
        p.constraints(x.copy())
        p.objective(x.copy())

    def script(st, x0):
        it, x = start - 1, x0
        for k, a in enumerate(word):
            if a == "d":
                report(0, it, x)
                continue
            it += 1
            if a in "ts":
                for _ in range(2):
                    evaluate(w.point())
            x = x0 if it == start else w.point()
            evaluate(x)
            report(1 if a == "s" else 0, it, x)
            if nested is not None and k == nested[0]:
                save = stub.SCRIPT
                nested[1]()
                stub.SCRIPT = save
        if end in ("tried", "failed-tried"):
            for _ in range(2):
                evaluate(w.point())
        bad = end.startswith("failed")
        return x, dict(status=-13 if bad else {"ok": 0, "tried": 2, "max": -1}[end], status_msg=b"played", obj_val=0.0)

    stub.SCRIPT = script
    x0 = w.point()
    try:
        sol, info = p.solve(x0 * ref.s, print_level=0)
        ok = True
    except RuntimeError:
        ok = False
    finally:
        stub.SCRIPT = None
    rec.check(ok == (not end.startswith("failed")), "reported", f"solve with ending {end}: {'finished' if ok else 'raised'}")
    if ok:
        rec.check(info.get("num_iter") == (hist[-1][0] if hist else None), "num-iter", lambda: f"num_iter {info.get('num_iter')} after {word}")
        if hist:
            w.finished = hist
            w.failed_after = False
    else:
        w.failed_after = True
    rec.transition(len(word) + 1)
    rec.state((w.case["model"], w.case["condensed"], w.every, word, end, start))


ENDS = ["ok", "tried", "max", "failed", "failed-tried"]


def units(tier):
    quick = tier == "quick"
    out = []
    k = 0
    for every in (0, 1, 2, 3):
        for ci in range(len(CASES)):
            out.append(dict(kind="one", every=every, ci=ci, maxlen=4 if quick else 6, part=ci, parts=len(CASES) if quick else 1, k=k))
            k += 1
    for every in (0, 1, 2):
        for part in range(2 if quick else 8):
            out.append(dict(kind="many", every=every, n=2 if quick else 3, part=part, parts=2 if quick else 8))
    out += [dict(kind="long", every=e) for e in (1, 3, 10)]
    out += [dict(kind="two", every=e, other=o) for e in (0, 1, 2) for o in (0, 1)]
    out += [dict(kind="real", every=e) for e in (0, 1, 2)]
    return out


def run_unit(unit, rec):
    stub.ACTIVE = True
    root = core.scratch_dir()
    os.chdir(root)
    kind, every = unit["kind"], unit["every"]
    if kind == "one":
        todo = [(wd, e) for wd in words(unit["maxlen"]) for e in ENDS]
        for i, (wd, e) in enumerate(todo[unit["part"] % unit["parts"]::unit["parts"]]):
            w = World(unit["ci"], (i + unit["k"]) % 3, (i // 3) % len(DIRS), every, root)
            rec.at(dict(problem=w.case, every=every, word=wd, end=e))
            w.failed_after = False
            play(w, rec, wd, e)
            check_logs(w, rec, f"{wd or 'no callback'}/{e}")
            rec.trace()
            rec.nontrivial((unit["ci"], every, wd, e))
            rec.outcome("one solve, " + e)
    elif kind == "many":
        small = [("", "ok"), ("r", "ok"), ("rrr", "ok"), ("rsd", "tried"), ("rr", "failed"), ("rrrr", "failed-tried"), ("", "failed"), ("rts", "max")]
        todo = list(itertools.product(small, repeat=unit["n"])) + ([] if unit["n"] > 2 else [
            s for s in itertools.product(small, repeat=3) if s[1][1].startswith("failed") or s[1][0] == ""])
        for i, seq in enumerate(todo[unit["part"]::unit["parts"]]):
            ci = i % len(CASES)
            w = World(ci, i % 3, i % len(DIRS), every, root)
            rec.at(dict(problem=w.case, every=every, solves=seq))
            w.failed_after = False
            for j, (wd, e) in enumerate(seq):
                play(w, rec, wd, e)
                check_logs(w, rec, f"solve {j + 1} of {seq}")
            rec.trace()
            rec.nontrivial((every, seq))
            rec.outcome(f"{len(seq)} solves")
    elif kind == "long":
        for wd in ("r" * 12, "r" * 10 + "s", "rr" + "s" * 9 + "d" + "rr", "rts" * 4, "r" * 25, ("r" * 9 + "sd") * 2):
            for e in ("ok", "tried"):
                w = World(0, 0, 0, every, root)
                rec.at(dict(every=every, word=wd, end=e))
                w.failed_after = False
                play(w, rec, wd, e)
                check_logs(w, rec, f"{wd}/{e}")
                play(w, rec, "rr", e)
                check_logs(w, rec, f"rr after {wd}/{e}")
                rec.trace()
                rec.nontrivial((every, wd, e))
    elif kind == "two":
        for (a, b), same in itertools.product(itertools.product(["r", "rsd", "rrrr"], ["", "r", "rrrrr"]), (True, False)):
            for k in range(len(a)):
                for e in ("ok", "failed"):
                    wa = World(0 if same else 1, 1, 2, every, root)
                    wb = World(0, 0, 2 if same else 0, (every + unit["other"]) % 3, root)
                    rec.at(dict(outer=a, inner=b, nested_at=k, end=e, same_directory=same))
                    rec.check(wa.dir != wb.dir, "shared-directory", f"two problems log to {wa.dir}")
                    wa.failed_after = wb.failed_after = False
                    if e == "ok":
                        play(wb, rec, "rr", "ok")

                    def inner():
                        play(wb, rec, b, e)
                        check_logs(wb, rec, f"inner {b} in {a}")

                    play(wa, rec, a, "ok", nested=(k, inner))
                    check_logs(wa, rec, f"outer {a} around {b}")
                    check_logs(wb, rec, f"inner {b} after outer {a}")
                    rec.trace()
                    rec.nontrivial((every, a, b, k, e, same))
    else:
        run_real(every, root, rec)


def run_real(every, root, rec):
    """Real solver runs: every callback is recorded as it arrives, and the logs must tell that course."""
    stub.ACTIVE = False
    try:
        for ci, k in itertools.product(range(len(CASES)), range(4)):
            for opts in (dict(max_iter=8), dict(max_iter=60), dict(max_iter=25, start_with_resto="yes")):
                w = World(ci, k % 3, 0, every, root)
                rec.at(dict(problem=w.case, start=k, options=opts, every=every))
                w.failed_after = False
                p, hist, last, word = w.p, [], [None], []
                obj, inter = p.objective, p.intermediate

                def objective(x):
                    last[0] = np.array(x)
                    return obj(x)

                def intermediate(*a):
                    word.append((a[0], a[1]))
                    if not hist or hist[-1][0] != a[1]:
                        hist.append((a[1], list(a), last[0]))
                    return inter(*a)

                # bounds keep the mesh scale positive; everything else is free
                if w.case["kind"] == "free":
                    i = w.ref.n - 1
                    p.lb[i], p.ub[i] = 0.5, 3.0
                p.objective, p.intermediate = objective, intermediate
                x0 = R.gen_point(w.ref, k) * w.ref.s
                try:
                    sol, info = p.solve(x0, print_level=0, sb="yes", fixed_variable_treatment="make_parameter",
                                        hessian_approximation="limited-memory", **opts)
                except RuntimeError:
                    rec.outcome("real run: error")
                    continue
                finally:
                    del p.objective, p.intermediate
                if not hist:
                    rec.outcome("real run: no callback")
                    continue
                # the played alphabet covers what the solver does
                for (m0, i0), (m1, i1) in zip(word, word[1:]):
                    rec.check(i1 == i0 + 1 or (i1 == i0 and (m0, m1) == (1, 0)), "alphabet", f"real callbacks {word}")
                rec.check(info["num_iter"] == hist[-1][0], "num-iter", f"num_iter {info['num_iter']}, solver ended at {hist[-1][0]}")
                w.finished = hist
                check_logs(w, rec, "real run")
                rec.trace()
                rec.transition(len(word))
                rec.nontrivial(("real", ci, k, str(opts), every))
                rec.outcome("real run")
                rec.outcome("real run with restoration" if any(m for m, _ in word) else "real run without restoration")
    finally:
        stub.ACTIVE = True
