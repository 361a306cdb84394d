"""C18: what the solver is handed, and what is made of its answer, over histories of solves."""
import itertools
import os

import numpy as np

from mc import stub

stub.install()

from mc import core  # noqa: E402
from mc import ocpcases as O  # noqa: E402
from mc import ref as R  # noqa: E402

CHECK = dict(
    id="C18",
    level="model_checking",
    technique="explicit-state exploration of all sequences of solves (guesses, options, warm starts, solver outcomes) and "
    "problem changes on the real problem with a recording solver in lockstep with an independent problem statement; real "
    "solver runs are checked for the optimality conditions of the stated problem",
    rule="all sequences up to the depth bound over the alphabet per problem; every single option override; all contents of the "
    "solver's output file over a line alphabet; a state is (scales, bounds, extra blocks, solves done)",
    assumptions=["warm start multipliers are handed over in the solver's own scaling, as documented",
                 "exact Hessians cannot be used with the installed solver wrapper, so real runs use its quasi-Newton option"],
    note="Every solve of every history within the bound: arguments, options, all callbacks and the returned result.",
)
CASES = [
    dict(model="A", outs=["o2", "o1"], backend="casadi", scheme="LGR", ns=3, mesh="2n", kind="free", cyclic=["states.time"], condensed=False),
    dict(model="ARC", outs=["o1"], backend="custom", scheme="Trapezoidal", ns=2, mesh="3n", kind="2.0", cyclic=None, condensed=False),
    dict(model="AR", outs=["o2"], backend="casadi", scheme="LGRIntegral", ns=3, mesh="2n", kind="free", cyclic=["inputs.w", "states.time"], condensed=True),
    dict(model="ARC", outs=[], backend="custom", scheme="ForwardEuler", ns=2, mesh="2", kind="0.5", cyclic=["states.time"], condensed=True),
    dict(model="A", outs=["o1"], backend="jax", scheme="LGR", ns=2, mesh="2n", kind="free", cyclic=["states.time"], condensed=False),
]
OPTS = [{}, {"tol": 1e-5, "max_iter": 7}, {"hessian_approximation": "limited-memory", "nlp_scaling_method": "none", "print_level": 0}]
OUTCOMES = ["same", "moved", "failed", "raised"]
QUIET = dict(print_level=0)


class SolverError(Exception):
    pass


def alphabet(kind):
    ops = [("solve", g, o, w, r) for g, o, w, r in (
        (1, 0, (), "moved"), (None, 1, (), "moved"), (2, 2, ("lagrange", "zl", "zu"), "moved"), ("list", 0, (), "same"), ("zero", 0, ("lagrange",), "moved"), (1, 1, (), "failed"), (None, 0, ("zu",), "raised"))]
    ops += [("scales", 1), ("scales", 0), ("bounds", 1), ("extra",), ("eval",)]
    return ops


def scale_table(case, k):
    if k == 0:
        return []
    out = [("states", "p", 4.0), ("states", "time", 0.25), ("inputs", "u", 5.0)]
    if case["outs"]:
        out.append(("con_outputs", case["outs"][0], 0.5))
    if case["kind"] == "free":
        out.append(("global", "mesh_scale", 2.5))
    return out


class Run:
    def __init__(self, case, refs):
        self.case, self.refs = case, refs
        self.p = O.make_problem(case)
        self.scales, self.bounds, self.extra = 0, {}, False
        self.guess = R.generic(self.p.num_dec, 40)
        if case["kind"] == "free":
            self.guess[-1] = 1.7
        self.p.get_init_guess = lambda: self.guess.copy()  # what a concrete problem defines
        self.solved = 0

    def ref(self):
        if self.scales not in self.refs:
            self.refs[self.scales] = O.make_ref(self.case, scales={(g, n): v for g, n, v in scale_table(self.case, self.scales)})
        return self.refs[self.scales]


def weights(n):
    return R.generic(n, 12)


def add_extra(p):
    from lumos.optimal_control.nlp import BaseObjective

    n = p.num_dec
    w = weights(n)
    p.add_objective("extra", BaseObjective(num_in=n, objective=lambda x: float(np.sum(w * x ** 2)), gradient=lambda x: 2 * w * x,
                                           hessian=lambda x: 2 * w, hessian_structure=(np.arange(n), np.arange(n))))


def check_callbacks(run, st, rec):
    """Everything the solver can ask, against the stated problem in scaled units."""
    ref, obj = run.ref(), st.obj
    x = R.gen_point(ref, 3 + run.solved % 2)
    c = np.ravel(np.asarray(obj.constraints(x)))
    pm = R.perm(run.p, ref)
    rec.close(c, ref.cons(x)[pm], "constraints", "constraints the solver gets")
    z = x * ref.s
    w = weights(ref.n)
    extra = float(np.sum(w * z ** 2)) if run.extra else 0.0
    rec.close(float(obj.objective(x)), ref.obj(x) + extra, "objective", "objective the solver gets")
    g = ref.grad(x) + (2 * w * z * ref.s if run.extra else 0)
    rec.close(np.ravel(obj.gradient(x)), g, "gradient", "gradient the solver gets", 1e-8)
    r, cc = obj.jacobianstructure()
    rec.close(R.dense(obj.jacobian(x), r, cc, (ref.m, ref.n), rec, "jacobian"), ref.jac(x)[pm], "jacobian", "Jacobian the solver gets", 1e-8)
    lam = R.generic(ref.m, 8)
    r, cc = obj.hessianstructure()
    rec.check(np.asarray(r).dtype.kind == "i" and np.asarray(cc).dtype.kind == "i", "indices", "hessian indices are not integers")
    H = ref.hess(x, lam, 0.6) + (0.6 * np.diag(2 * w * ref.s ** 2) if run.extra else 0)
    rec.close(R.dense(obj.hessian(x, lam[pm], 0.6), r, cc, (ref.n, ref.n), rec, "hessian"), np.triu(H), "hessian", "Hessian the solver gets", 1e-8)


def do_solve(run, op, defaults, rec):
    _, g, oi, warm, outcome = op
    p, ref = run.p, run.ref()
    user = {**OPTS[oi]}
    before = p.lb.copy(), p.ub.copy(), p.cl.copy(), p.cu.copy(), p.num_con, p.num_dec
    guess = None if g is None else np.zeros(ref.n, int) if g == "zero" else R.generic(ref.n, 20 + (g if g != "list" else 9))
    if guess is not None and g != "zero" and run.case["kind"] == "free":
        guess[-1] = 1.1
    given = guess.tolist() if g == "list" else guess
    keep = None if guess is None else guess.copy()
    kw = {}
    everything = lambda: dict(lagrange=R.generic(ref.m, 1), zl=R.generic(ref.n, 2) ** 2, zu=R.generic(ref.n, 3) ** 2)  # noqa: E731
    kw = {k: v for k, v in everything().items() if k in warm}
    ans = R.generic(ref.n, 30 + run.solved)
    info0 = dict(status=-13 if outcome == "failed" else [0, 1, -1, 2][run.solved % 4], status_msg=b"played", obj_val=3.5,
                 mult_g=R.generic(ref.m, 5), mult_x_L=R.generic(ref.n, 6), mult_x_U=R.generic(ref.n, 7), g=R.generic(ref.m, 9), x=ans)
    nit = run.solved % 3
    mine = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in info0.items()}

    def script(st, x0):
        check_callbacks(run, st, rec)
        for i in range(nit):
            st.obj.intermediate(0, i, *[0.0] * 9)
        if outcome == "raised":
            raise SolverError("solver")
        return (x0 if outcome == "same" else ans.copy()), mine

    stub.SCRIPT = script
    stub.CALLS.clear()
    try:
        sol, info = p.solve(given, **kw, **user)
        got = "ok"
    except SolverError:
        got = "raised"
    except RuntimeError as e:
        got = "failed"
        rec.check("-13" in str(e) or "played" in str(e), "message", f"the failure of the solver is reported as {e}")
    finally:
        stub.SCRIPT = None
    want = dict(same="ok", moved="ok", failed="failed", raised="raised")[outcome]
    rec.check(got == want, "reported", f"solver outcome {outcome}: {got}")
    rec.check(len(stub.CALLS) == 1 and len(stub.CALLS[0].solves) == 1, "calls", "solver not called exactly once")
    st = stub.CALLS[0]
    x0 = (run.guess if keep is None else keep) / ref.s
    rec.close(st.solves[0]["x"], x0, "x0", "initial guess handed to the solver", 1e-14, 0)
    for k in ("lagrange", "zl", "zu"):
        rec.close(st.solves[0][k], kw.get(k, []), "warm-start", f"warm start {k}", 0, 0)
    if guess is not None:
        rec.check(np.array_equal(guess, keep), "modified", "the initial guess of the caller was modified")
    for k, v in kw.items():
        rec.check(np.array_equal(v, everything()[k]), "modified", f"{k} of the caller was modified")
    rec.check(user == OPTS[oi], "modified", "options of the caller were modified")
    lb, ub = np.full(ref.n, -np.inf), np.full(ref.n, np.inf)
    if run.case["condensed"]:
        for nme in ref.names["states"]:
            for s in range(ref.N):
                lb[ref.index("states_dot", nme, s)] = ub[ref.index("states_dot", nme, s)] = 0.0
    for (grp, nme), (lo, hi) in run.bounds.items():
        for s in range(ref.N):
            lb[ref.index(grp, nme, s)], ub[ref.index(grp, nme, s)] = lo, hi
    rec.check((st.n, st.m) == (ref.n, ref.m) and type(st.m) is int, "size", f"problem of size {(st.n, st.m)}, expected {(ref.n, ref.m)}")
    rec.close(st.lb, lb / ref.s, "bounds", "lower bounds handed to the solver", 1e-14, 0)
    rec.close(st.ub, ub / ref.s, "bounds", "upper bounds handed to the solver", 1e-14, 0)
    rec.close(st.cl, np.zeros(ref.m), "bounds", "constraint bounds", 0, 0)
    rec.close(st.cu, np.zeros(ref.m), "bounds", "constraint bounds", 0, 0)
    rec.check(st.options == {**defaults, **user}, "options", lambda: f"options {st.options}, expected {({**defaults, **user})}")
    if got == "ok":
        rec.close(sol, (x0 if outcome == "same" else ans) * ref.s, "solution", "solution returned", 1e-13, 0)
        for k, v in info0.items():
            rec.check(k in info and np.array_equal(info[k], v), "info", f"solver's {k} is not returned")
        rec.check(info["num_iter"] == (nit - 1 if nit else None), "num-iter", f"num_iter {info['num_iter']} after {nit} iterations")
    after = p.lb, p.ub, p.cl, p.cu, p.num_con, p.num_dec
    rec.check(all(np.array_equal(a, b) for a, b in zip(before, after)), "definition", "solving changed the problem")
    run.solved += 1


def run_history(case, ops, refs, rec):
    from lumos.optimal_control.config import BoundConfig, ScaleConfig

    run = Run(case, refs)
    defaults = first_defaults(case, run, rec)
    for op in ops:
        if op[0] == "solve":
            do_solve(run, op, defaults, rec)
        elif op[0] == "scales":
            run.p.set_scales(tuple(ScaleConfig(g, n, v) for g, n, v in scale_table(case, op[1])))
            run.scales = op[1]
        elif op[0] == "bounds":
            run.p.update_bounds((BoundConfig("inputs", "w", (-2.0, 3.0)), BoundConfig("states", "p", (-1.0, 0.5))))
            run.bounds = {("inputs", "w"): (-2.0, 3.0), ("states", "p"): (-1.0, 0.5)}
        elif op[0] == "extra":
            if run.extra:
                run.p.delete_objective("extra")
            else:
                add_extra(run.p)
            run.extra = not run.extra
        else:
            x = R.gen_point(run.ref(), 11)
            run.p.objective(x), run.p.constraints(x), run.p.hessian(x, R.generic(run.p.num_con, 2), 1.0)
        rec.transition()
        rec.state((case["model"], case["condensed"], run.scales, sorted(map(str, run.bounds)), run.extra, min(run.solved, 2)))
    rec.trace()


_DEF = {}


def first_defaults(case, run, rec):
    """Options in force without any user option (hessian approximation as configured)."""
    k = (case["model"], case["condensed"], case["kind"])
    if k not in _DEF:
        _DEF[k] = dict(stub.seen(O.make_problem(case), np.ones(run.p.num_dec)).options)
        rec.check(_DEF[k].get("hessian_approximation") == "exact", "options", "the configured hessian approximation is not handed over")
        lm = stub.seen(O.make_problem(case, hessian_approximation="limited-memory"), np.ones(run.p.num_dec)).options
        rec.check(lm == {**_DEF[k], "hessian_approximation": "limited-memory"}, "options", "the configured hessian approximation is not handed over")
    return _DEF[k]


def units(tier):
    quick = tier == "quick"
    out = []
    for i, c in enumerate(CASES[:4]):
        for a in range(len(alphabet(c["kind"]))):
            out.append(dict(kind="history", case=i, first=a, depth=3 if quick else 4))
    out += [dict(kind="jax", case=4)]
    out += [dict(kind="options", case=i) for i in range(4)]
    out += [dict(kind="output", case=i) for i in range(2)]
    out += [dict(kind="feasibility"), dict(kind="badoption")]
    out += [dict(kind="real", n=n) for n in range(4 if quick else 12)]
    return out


def run_unit(unit, rec):
    stub.ACTIVE = True
    kind = unit["kind"]
    os.chdir(core.scratch_dir())
    if kind in ("history", "jax"):
        case = CASES[unit["case"]]
        ops = alphabet(case["kind"])
        refs = {}
        if kind == "jax":
            seqs = [[ops[6], ops[0], ops[8], ops[2], ops[7], ops[1], ops[9], ops[4], ops[0], ops[5], ops[3], ops[9], ops[10], ops[1]]]
        else:
            seqs = [[ops[unit["first"]]] + [ops[i] for i in rest] for d in range(unit["depth"])
                    for rest in itertools.product(range(len(ops)), repeat=d)]
            seqs = [s for s in seqs if s[-1][0] == "solve"]
            if not unit["first"]:  # every part of a warm start can be left out
                parts = [t for r in range(4) for t in itertools.combinations(("lagrange", "zl", "zu"), r)]
                seqs += [[("solve", 1, 0, t, "moved"), ("solve", None, 1, u, "moved")] for t in parts for u in parts]
        for s in seqs:
            rec.at(dict(case=case, ops=s))
            run_history(case, s, refs, rec)
            rec.nontrivial((unit["case"], s))
        rec.outcome(f"histories, {case['backend']}", len(seqs))
        if seqs:
            rec.sample(dict(case=case, ops=seqs[-1]))
    elif kind == "options":
        run_options(CASES[unit["case"]], rec)
    elif kind == "output":
        run_output(CASES[unit["case"]], rec)
    elif kind == "feasibility":
        run_feasibility(rec)
    elif kind == "badoption":
        run_badoption(rec)
    else:
        run_real(unit["n"], rec)


ALT = {str: ["other", ""], int: [0, 3], float: [1e-9, 2.5]}


def run_options(case, rec):
    """Every default option overridden alone and with each other one; further options of every type; a user's hsl library."""
    p = O.make_problem(case)
    x = np.ones(p.num_dec)
    base = dict(stub.seen(p, x).options)
    cand = []
    for k, v in base.items():
        for a in ALT[type(v)]:
            if k == "output_file" and a == "other":
                a = "other.out"
            if k == "print_timing_statistics":
                a = "no"
            cand.append((k, a))
    cand += [("warm_start_init_point", "yes"), ("bound_push", 1e-9), ("max_cpu_time", 12.5), ("acceptable_iter", 3), ("hsllib", "mine.so")]
    sets = [[a] for a in cand] + [list(ab) for ab in itertools.combinations(cand, 2) if ab[0][0] != ab[1][0]]
    for s in sets:
        user = dict(s)
        rec.at(dict(case=case, options=user))
        got = dict(stub.seen(p, x, **user).options)
        rec.check(got == {**base, **user}, "options", lambda: f"options {got} for {user}")
        rec.nontrivial(("options", case["model"], s))
    again = dict(stub.seen(p, x).options)
    rec.check(again == base, "sticky", "options of an earlier solve are used again")
    # a library next to the program is used, unless the user says otherwise
    os.makedirs("hsl", exist_ok=True)
    open("hsl/libcoinhsl.so", "w").close()
    with_hsl = dict(stub.seen(p, x).options)
    rec.check({k: v for k, v in with_hsl.items() if k not in ("hsllib", "linear_solver")} == {k: v for k, v in base.items() if k != "linear_solver"},
              "options", "an hsl library changes other options")
    for user in ({"linear_solver": "mumps"}, {"linear_solver": "ma57", "hsllib": "x.so"}, {"tol": 1.0}):
        rec.at(dict(case=case, options=user, hsl=True))
        got = dict(stub.seen(p, x, **user).options)
        rec.check(got == {**with_hsl, **user}, "options", f"options {got} for {user} with an hsl library")
    rec.outcome("option sets", len(sets) + 3)


def run_output(case, rec):
    """The solver's own timings are read from its output file exactly when it was asked to write them."""
    lines = ["", "Number of Iterations....: 12\n", "Total seconds in IPOPT (w/o function evaluations)    =      0.125\n",
             "Total seconds in NLP function evaluations            =     31.750\n", "Total seconds in something else = 7.5\n",
             "EXIT: Optimal Solution Found.\n"]
    p = O.make_problem(case)
    x = np.ones(p.num_dec)
    for n in range(4):
        for combo in itertools.permutations(lines, n):
            for opts in ({}, {"print_level": 3}, {"print_level": 5, "output_file": "own file.txt"}, {"print_timing_statistics": "no"}, {"output_file": ""}, {"output_file": None}):
                rec.at(dict(case=case, lines=combo, options=opts))
                name = opts.get("output_file", "ipopt.out")
                if not name:
                    with open("ipopt.out", "w") as f:  # left by an earlier run
                        f.write(lines[2] + lines[3])

                def script(st, x0):
                    if name:
                        with open(name, "w") as f:
                            f.write("".join(combo))
                    return x0, dict(status=0, status_msg=b"ok")

                stub.SCRIPT = script
                try:
                    _, info = p.solve(x, **opts)
                finally:
                    stub.SCRIPT = None
                asked = name and opts.get("print_level", 4) >= 4 and opts.get("print_timing_statistics", "yes") == "yes"
                want = {}
                if asked:
                    if lines[2] in combo:
                        want["ipopt_time"] = 0.125
                    if lines[3] in combo:
                        want["nlp_time"] = 31.75
                got = {k: info[k] for k in ("ipopt_time", "nlp_time") if k in info}
                rec.check(got == want, "timing", lambda: f"timings {got} read from {combo} with {opts}, expected {want}")
                rec.nontrivial(("output", combo, opts))
    rec.outcome("output files", 1)


def run_feasibility(rec):
    """Problems without an objective are solved for feasibility, and stay usable."""
    from lumos.optimal_control.nlp import BaseConstraints, BaseObjective, CompositeProblem

    def build(s):
        p = CompositeProblem(3)
        if s != [1.0, 1.0, 1.0]:  # there is no public way to scale a bare composite problem
            p._dec_var_scales = np.array(s)
        p.add_constraints("c", BaseConstraints(
            num_in=3, num_con=2, constraints=lambda x: np.array([x[0] ** 2 - 1, x[1] ** 2 + x[2] - 2]),
            jacobian=lambda x: np.array([2 * x[0], 2 * x[1], 1.0]), hessian=lambda x, l: np.array([2 * l[0], 2 * l[1]]),
            jacobian_structure=(np.array([0, 1, 1]), np.array([0, 1, 2])), hessian_structure=(np.array([0, 1]), np.array([0, 1]))))
        p.cl = p.cu = np.zeros(2)
        p.lb, p.ub = np.array([0.5, 0.1, -5.0]), np.array([5.0, 5.0, 5.0])
        return p

    def obj():
        return BaseObjective(num_in=3, objective=lambda x: (x[2] - 1.5) ** 2, gradient=lambda x: np.array([0, 0, 2 * (x[2] - 1.5)]),
                             hessian=lambda x: np.array([2.0]), hessian_structure=(np.array([2]), np.array([2])))

    scales = ([1.0, 1.0, 1.0], [2.0, 0.5, 10.0])[: 2 if hasattr(CompositeProblem(3), "_dec_var_scales") else 1]
    for s, seq in itertools.product(scales, itertools.product("srao", repeat=4)):
        # s: solve with the stand-in, r: real solve (exact hessian, which is diagonal here), a: add, o: delete the user's objective
        rec.at(dict(scales=s, ops=seq))
        p, has = build(s), False
        for op in seq:
            if op == "a" and not has:
                p.add_objective("mine", obj())
                has = True
            elif op == "o" and has:
                p.delete_objective("mine")
                has = False
            elif op == "s":
                x = np.array([1.2, 0.7, 0.4])
                st = stub.seen(p, x, **QUIET)
                z = st.solves[0]["x"] * s
                rec.close(z, x, "x0", "initial guess", 1e-14)
                rec.close(float(p.objective(x / s)), (x[2] - 1.5) ** 2 if has else 0.0, "feasibility", "objective")
                rec.close(np.ravel(p.gradient(x / s)), [0, 0, 2 * (x[2] - 1.5) * s[2] if has else 0], "feasibility", "gradient")
                r, c = p.hessianstructure()
                rec.check(np.asarray(r).dtype.kind == "i" and np.asarray(c).dtype.kind == "i", "indices", "hessian indices are not integers")
                H = R.dense(p.hessian(x / s, np.array([0.3, 0.7]), 2.0), r, c, (3, 3), rec, "hessian")
                rec.close(H, np.diag([0.6 * s[0] ** 2, 1.4 * s[1] ** 2, 4.0 * s[2] ** 2 if has else 0]), "feasibility", "Hessian")
            elif op == "r":
                stub.ACTIVE = False
                try:
                    sol, info = p.solve(np.array([2.0, 0.4, 2.0]), fixed_variable_treatment="make_parameter", tol=1e-8, sb="yes", **QUIET)
                finally:
                    stub.ACTIVE = True
                rec.check(info["status"] == 0, "real", f"solver ends with {info['status']} {info['status_msg']}")
                rec.close([sol[0] ** 2, sol[1] ** 2 + sol[2]], [1, 2], "real", "constraints at the solution", atol=1e-6)
                if has:
                    rec.close(sol, [1, np.sqrt(0.5), 1.5], "real", "solution", atol=1e-4)
            rec.transition()
            rec.state((s, has, len(seq)))
        rec.trace()
    rec.outcome("feasibility histories", 2 * 4 ** 4)


def run_badoption(rec):
    """Options the solver refuses are reported, and the problem can be solved afterwards."""
    for case in CASES[:4]:
        for bad in ({"tol": "tight"}, {"no_such_option": 1}, {"max_iter": [3]}, {"max_iter": None}):
            rec.at(dict(case=case, options=bad))
            p = O.make_problem(case)
            before = dict(stub.seen(p, np.ones(p.num_dec)).options)
            stub.ACTIVE = False
            try:
                rec.expect_raises(lambda: p.solve(np.ones(p.num_dec), **{**QUIET, **bad}), "bad-option", f"option {bad}")
            finally:
                stub.ACTIVE = True
            after = dict(stub.seen(p, np.ones(p.num_dec)).options)
            rec.check(before == after, "sticky", "a refused option is used again")
            rec.nontrivial(("bad", case["model"], bad))


def run_real(n, rec):
    """Real solves: the returned point satisfies the optimality conditions of the stated problem."""
    stub.ACTIVE = False
    try:
        from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig, ScaleConfig

        for model, (scheme, ns), cond, sk in itertools.product(("L", "B"), O.SCHEMES[1 + n % 4::4], (False, True), (0, 1)):
            case = dict(model=model, outs=["y"] if model == "L" else [], backend="casadi", scheme=scheme, ns=ns, mesh=["2n", "3"][n % 2], kind="free",
                        cyclic=None, condensed=cond)
            sc = [("states", "time", 0.2), ("inputs", "u", 3.0), ("global", "mesh_scale", 4.0)] if sk else []
            rec.at(dict(case=case, scales=sc))
            p = O.make_problem(case, hessian_approximation="limited-memory", scales=tuple(ScaleConfig(*a) for a in sc))
            ref = O.make_ref(case, scales={(g, nm): v for g, nm, v in sc})
            bnd = [BoundConfig("global", "mesh_scale", (0.3, 5.0)), BoundConfig("inputs", "u", (0.4, 1.0))]
            bc = [BoundaryConditionConfig(0, "states", "time", 0.2), BoundaryConditionConfig(-1, "states", "time", 1.2)]
            if model == "L":
                bc += [BoundaryConditionConfig(0, "states", "p", 0.0), BoundaryConditionConfig(0, "states", "v", 0.1)]
            p.update_bounds(tuple(bnd))
            p.update_boundary_conditions(tuple(bc))
            x0 = np.full(p.num_dec, 0.5)
            sol, info = p.solve(x0, fixed_variable_treatment="make_constraint", tol=1e-9, sb="yes", max_iter=500, **QUIET)
            if info["status"] not in (0, 1):
                rec.outcome("real solve not converged")
                continue
            x = sol / ref.s
            rec.close(x, info["x"], "solution", "solution and the solver's own", 1e-12)
            rec.close(ref.cons(x), np.zeros(ref.m), "kkt", "constraints at the solution", atol=1e-6)
            rec.check(bool(np.all(sol >= p.lb - 1e-6) and np.all(sol <= p.ub + 1e-6)), "kkt", "solution outside of the bounds")
            pm = R.perm(p, ref)
            grad = ref.grad(x) + ref.jac(x)[pm].T @ info["mult_g"] - info["mult_x_L"] + info["mult_x_U"]
            rec.close(grad, np.zeros(ref.n), "kkt", "gradient of the Lagrangian at the solution", atol=1e-5)
            rec.close(info["obj_val"], ref.obj(x), "kkt", "objective value", atol=1e-8)
            rec.nontrivial(("real", model, scheme, ns, cond, sk))
            rec.outcome("real solve converged")
            rec.trace()
    finally:
        stub.ACTIVE = True
