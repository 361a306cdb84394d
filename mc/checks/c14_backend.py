"""C14: selecting a numeric backend follows a stack discipline."""
import itertools

import numpy as np

CHECK = dict(
    id="C14",
    level="model_checking",
    technique="explicit-state exploration of all well-nested histories of backend selections, exits, exceptions, refusals and "
    "decorated calls up to a depth, run on the real module against a stack; plus all library operations from every backend",
    rule="all sequences up to the depth bound over the alphabet of selections, with the active backend and the functions "
    "served compared after every operation; a state is the stack of backends; every library operation x initial backend x fault",
    assumptions=["one thread selects backends: the selection is module-wide"],
    note="All histories within the bounds, run on the implementation itself: every trace is validated against it.",
)
B = ("numpy", "jax", "casadi")
BAD = ("torch", "", "NumPy", None, "jax ")
OPS = (
    [("set", b) for b in B] + [("set", "torch")]
    + [("enter", b) for b in B] + [("enter", "torch")]
    + [("shared", 0), ("shared", 1)]  # the same context object entered again and again
    + [("exit",), ("raise",), ("abort",)]
    + [("call", "jax"), ("call", "casadi"), ("recurse", "jax"), ("callraise", "casadi")]
)


class Boom(Exception):
    pass


class Abort(BaseException):
    pass


def units(tier):
    depth = 5 if tier == "quick" else 6
    out = [dict(kind="histories", depth=depth, start=s, first=i) for s in B for i in range(len(OPS)) if valid((i,))]
    out += [dict(kind="refused", start=s) for s in B]
    out += [dict(kind="functions")]
    out += [dict(kind="library", start=s) for s in B]
    return out


class World:
    def __init__(self, start, rec):
        import jax.numpy as jnp
        import lumos.numpy as lnp
        import lumos.numpy.casadi_numpy as cnp

        self.lnp, self.rec = lnp, rec
        self.mods = dict(numpy=np, jax=jnp, casadi=cnp)
        self.shared = [lnp.use_backend("jax"), lnp.use_backend("casadi")]
        self.deco = {}
        self.cur = start
        self.stack = []
        lnp.set_backend("numpy")
        lnp.set_backend(start)
        self.seen = []

        def recurse(n, f=None):
            self.seen.append(lnp.get_backend())
            if n:
                lnp.set_backend("numpy")
                self.deco["jax"](n - 1)
                self.seen.append(lnp.get_backend())

        def callraise(n):
            self.seen.append(lnp.get_backend())
            lnp.set_backend("jax")
            raise Boom()

        self.deco["jax"] = lnp.use_backend("jax")(recurse)
        self.deco["casadi"] = lnp.use_backend("casadi")(recurse)
        self.deco["raise"] = lnp.use_backend("casadi")(callraise)

    def observe(self, case):
        lnp, rec = self.lnp, self.rec
        rec.check(lnp.get_backend() == self.cur, "active", lambda: f"active backend {lnp.get_backend()}, expected {self.cur}", case)
        m = self.mods[self.cur]
        rec.check(lnp.sin is m.sin and lnp.where is m.where, "functions", lambda: f"functions served are not those of {self.cur}", case)

    def do(self, op, case):
        """Operations that do not open or close a scope."""
        lnp, kind = self.lnp, op[0]
        if kind == "set":
            lnp.set_backend(op[1])
            if op[1] in B:
                self.cur = op[1]
        elif kind == "call":
            self.seen.clear()
            self.deco[op[1]](0)
            self.rec.check(self.seen == [op[1]], "decorated", lambda: f"decorated function ran with {self.seen}", case)
        elif kind == "recurse":
            self.seen.clear()
            self.deco[op[1]](2)
            self.rec.check(self.seen == ["jax", "jax", "jax", "numpy", "numpy"], "decorated", lambda: f"recursive decorated function ran with {self.seen}", case)
        elif kind == "callraise":
            self.seen.clear()
            try:
                self.deco["raise"](0)
            except Boom:
                pass
            else:
                self.rec.fail("swallowed", "the exception of a decorated function was swallowed", case)
            self.rec.check(self.seen == ["casadi"], "decorated", lambda: f"decorated function ran with {self.seen}", case)

    def run(self, prog, i, case, depth=0):
        """Execute prog[i:] until the scope at `depth` closes; returns the next position."""
        while i < len(prog):
            op = OPS[prog[i]]
            i += 1
            self.rec.transition()
            if op[0] in ("enter", "shared"):
                ctx = self.lnp.use_backend(op[1]) if op[0] == "enter" else self.shared[op[1]]
                target = op[1] if op[0] == "enter" else ("jax", "casadi")[op[1]]
                self.stack.append(self.cur)
                how = None
                try:
                    with ctx:
                        if target in B:
                            self.cur = target
                        self.observe(case)
                        i, how = self.run(prog, i, case, depth + 1)
                        if how == "raise":
                            raise Boom()
                        if how == "abort":
                            raise Abort()
                    if how in ("raise", "abort"):
                        self.rec.fail("swallowed", "an exception was swallowed by the context", case)
                except (Boom, Abort):
                    if how not in ("raise", "abort"):
                        raise
                self.cur = self.stack.pop()
                self.observe(case)
                self.rec.state((tuple(self.stack), self.cur))
            elif op[0] in ("exit", "raise", "abort"):
                return i, op[0]
            else:
                self.do(op, case)
                self.observe(case)
                self.rec.state((tuple(self.stack), self.cur))
        return i, "end"


def valid(prog):
    d = 0
    for k in prog:
        n = OPS[k][0]
        if n in ("enter", "shared"):
            d += 1
        elif n in ("exit", "raise", "abort"):
            d -= 1
            if d < 0:
                return False
    return True


def run_histories(unit, rec):
    for rest in itertools.product(range(len(OPS)), repeat=unit["depth"] - 1):
        prog = (unit["first"],) + rest
        if not valid(prog):
            continue
        case = dict(start=unit["start"], history=[OPS[k] for k in prog])
        rec.at(case)
        w = World(unit["start"], rec)
        w.run(prog, 0, case)
        rec.check(not w.stack, "harness", "scopes left open")
        rec.trace()
    rec.sample(case)


def run_refused(unit, rec):
    import lumos.numpy as lnp

    for bad in BAD:
        for inner in (None,) + B:
            case = dict(start=unit["start"], refused=bad, inner=inner)
            rec.at(case)
            lnp.set_backend(unit["start"])
            lnp.set_backend(bad)
            rec.check(lnp.get_backend() == unit["start"], "refused", f"refused selection {bad!r} changed the backend", case)
            with lnp.use_backend(bad):
                rec.check(lnp.get_backend() == unit["start"], "refused", f"refused scope {bad!r} changed the backend", case)
                if inner:
                    lnp.set_backend(inner)
                    rec.check(lnp.get_backend() == inner, "active", "selection inside a refused scope", case)
            rec.check(lnp.get_backend() == unit["start"], "refused", f"after the refused scope {bad!r}", case)
            rec.transition(3)
            rec.state((unit["start"], str(bad), inner))
            rec.trace()
    lnp.set_backend("numpy")


# functions the models use, with arguments every backend accepts
V = np.array([0.3, -1.2, 2.5])
W = np.array([1.1, 0.4, -0.7])
POS = np.array([0.3, 1.2, 2.5])
UNARY = ["sin", "cos", "tan", "arctan", "tanh", "exp", "abs", "sign", "sqrt", "square"]
FUNCS = {
    **{f: (f, (POS if f == "sqrt" else V,)) for f in UNARY},
    "arctan2": ("arctan2", (V, W)), "minimum": ("minimum", (V, W)), "maximum": ("maximum", (V, W)),
    "where": ("where", (V > 0, V, W)), "dot": ("dot", (V, W)), "sum": ("sum", (V,)),
    "arcsin": ("arcsin", (V / 3,)), "log": ("log", (POS,)), "sinh": ("sinh", (V,)), "fmax": ("fmax", (V, 0.5)),
}


def run_functions(unit, rec):
    import casadi as cas
    import jax.numpy as jnp
    import lumos.numpy as lnp

    def num(x):
        return np.array(cas.DM(x)).ravel() if isinstance(x, (cas.SX, cas.DM, cas.MX)) else np.asarray(x).ravel()

    for name, (f, args) in FUNCS.items():
        if not all(hasattr(m, f) for m in (np, jnp)):
            continue
        want = getattr(np, f)(*args)
        for b in B:
            rec.at(dict(function=f, backend=b))
            with lnp.use_backend(b):
                if b == "casadi" and not _has(lnp, f):
                    continue
                conv = (lambda a: cas.DM(np.asarray(a, float)) if isinstance(a, np.ndarray) else a) if b == "casadi" else (
                    (lambda a: jnp.asarray(a)) if b == "jax" else (lambda a: a))
                got = getattr(lnp, f)(*[conv(a) for a in args])
                if b == "jax":
                    rec.check(got.dtype == np.float64, "precision", f"{f} under jax returns {got.dtype}")
            rec.close(num(got), np.asarray(want).ravel(), "function", f"{f} under {b}", rtol=1e-12)
            rec.transition()
            rec.trace()
            rec.state((f, b))
    for b in B:
        rec.at(dict(backend=b, what="vectors"))
        with lnp.use_backend(b):
            conv = {"numpy": np.asarray, "jax": jnp.asarray, "casadi": lambda a: cas.DM(a)}[b]
            parts = [conv(V), conv(W[:2]), conv(W[2:])]
            cat = lnp.vector_concat(parts)
            rec.close(num(cat), np.concatenate([V, W]), "vector_concat", f"vector_concat under {b}")
            for idx in ([], [2], [1, 4], [0, 3], [3, 3], [3, 6]):
                got = lnp.vector_split(cat, idx)
                want = np.split(np.concatenate([V, W]), idx)
                rec.check(len(got) == len(want), "vector_split", f"vector_split at {idx} under {b}: {len(got)} parts")
                for g, w in zip(got, want):
                    rec.close(num(g), w, "vector_split", f"vector_split at {idx} under {b}")
            for r in (1, 2, 5):
                t = lnp.vector_tile(conv(V), r)
                rec.close(np.array(cas.DM(t)) if b == "casadi" else t, np.tile(V, (r, 1)), "vector_tile", f"vector_tile {r} under {b}")
            rec.expect_raises(lambda: lnp.no_such_function, "unknown", f"unknown function under {b}", (AttributeError,))
        rec.check(lnp.get_backend() == "numpy", "active", "backend after the scope")


def _has(m, f):
    try:
        getattr(m, f)
        return True
    except AttributeError:
        return False


def run_library(unit, rec):
    """Every library operation leaves the backend as it found it, also when it fails."""
    import lumos.numpy as lnp
    from mc import comp as C

    C.register()
    sel = ("MCroot", dict(l=("MCm", dict(p=("MCa", {}), q=("MCb", {}))), h=("MCb", {})))
    from lumos.models.composition import ModelMaker
    from lumos.optimal_control.config import LoggingConfig, SimConfig  # noqa: F401
    from mc import ocpcases

    def model():
        return ModelMaker.make_model_from_config(C.config_of(sel))

    x = np.linspace(-1, 1, 6).reshape(2, 3)

    def batched(backend):
        def f(m):
            m.make_model_algebra_cons(backend)
            m.batched_forward(x, x + 0.5, np.array([0.0, 1.0]), m.get_recursive_params())

        return f

    def algebra(backend):
        def f(m):
            m.make_model_algebra_cons(backend)
            n, k = m.num_implicit_var, m.num_implicit_res
            a = m.model_algebra
            z = np.linspace(0, 1, 2 * n).reshape(2, n)
            p = m.get_recursive_params()
            if backend == "casadi":
                p = p.tree_ravel()[0]
            a.mapped_constraints(z, np.arange(2.0), p)
            a.mapped_jacobian(z, np.arange(2.0), p)
            a.mapped_hessian(z, np.ones((2, k)), np.arange(2.0), p)

        return f

    ops = dict(
        make_jax=lambda m: m.make_model_algebra_cons("jax"), make_casadi=lambda m: m.make_model_algebra_cons("casadi"),
        make_bad=lambda m: m.make_model_algebra_cons("torch"), batched_jax=batched("jax"), batched_casadi=batched("casadi"),
        algebra_jax=algebra("jax"), algebra_casadi=algebra("casadi"), export=lambda m: m.export_c_code("export.c"),
        forward=lambda m: m.forward_with_arrays(x[0], x[1], 0.0))
    outcomes = {}
    for (n1, f1), fault in itertools.product(ops.items(), (None, ("late", None), ("input", 0))):
        case = dict(start=unit["start"], op=n1, fault=fault)
        rec.at(case)
        lnp.set_backend(unit["start"])
        m = model()
        m.fault = fault
        try:
            f1(m)
            res = "ok"
        except Exception as e:  # noqa: BLE001
            res = type(e).__name__
        rec.outcome(f"{n1}:{res}")
        rec.check(lnp.get_backend() == unit["start"], "active", f"{n1} left the backend {lnp.get_backend()} ({res})", case)
        if fault is not None and n1 not in ("make_bad", "make_jax"):
            rec.check(res in ("ArithmeticError", "KeyError"), "fault", f"{n1} with a failing model: {res}", case)
        # and the operation that failed can be repeated without the fault
        m.fault = None
        if fault is not None and n1 != "make_bad":
            try:
                f1(m)
            except Exception as e:  # noqa: BLE001
                if unit["start"] == "numpy":
                    rec.fail("retry", f"{n1} after a failure: {type(e).__name__}: {e}", case)
            rec.check(lnp.get_backend() == unit["start"], "active", f"{n1} again left the backend {lnp.get_backend()}", case)
        rec.transition(2)
        rec.trace()
        rec.state((unit["start"], n1, str(fault), res))
    lnp.set_backend("numpy")


def run_unit(unit, rec):
    dict(histories=run_histories, refused=run_refused, functions=run_functions, library=run_library)[unit["kind"]](unit, rec)
