"""C13: a submodel call sees exactly its inputs and parameters."""
import itertools

import numpy as np

from mc import comp as C
from mc import libmodels as L

CHECK = dict(
    id="C13",
    level="model_checking",
    technique="explicit-state exploration of all call histories up to a depth on the real models, with injected faults in every "
    "submodel call, against an independent evaluation of what every model computes",
    rule="all histories up to the depth bound over {dict call, array call, call with parameters, set parameters, select constraint "
    "outputs, traced call (at most one per history, in second place), direct submodel call, failing calls}; all permutations and subsets of names; all single faults at every "
    "place of every selection; a state is (model, current parameters, selected constraint outputs)",
    assumptions=["models are called from one thread"],
    note="All histories within the bounds, run on the implementation itself: every trace is validated against it.",
)
A, B, CC = ("MCa", {}), ("MCb", {}), ("MCc", {})
SELS = [
    ("MCroot", dict(l=("MCm", dict(p=A, q=B)), h=B)),
    ("MCroot", dict(l=("MCd", dict(e=("MCm", dict(p=A, q=B)))), h=("MCd", dict(e=A)))),
    ("MCm", dict(p=("MCn", dict(r=A)), q=("MCm", dict(p=B, q=CC)))),
    ("MCd", dict(e=B)),
    ("MCroot", dict(l=B, h=B)),
]
POINTS = [
    (dict(x1=0.35, x2=1.9, z=-0.6), dict(u=0.7, v=-1.3, c=0.4), 2.5),
    (dict(x1=-1.2, x2=0.8, z=2.2), dict(u=-0.1, v=0.9, c=3.0), -1.0),
]


def units(tier):
    out = []
    for i in range(len(SELS)):
        out.append(dict(kind="names", i=i))
        out.append(dict(kind="faults", i=i))
        for f, op in enumerate(ops(SELS[i])):
            if op[0] in ("trace", "casadi"):
                continue
            out.append(dict(kind="histories", i=i, first=f, depth=3 if tier == "quick" else 4))
    out += [dict(kind="library", name=n) for n in L.NOMINAL] + [dict(kind="given"), dict(kind="owned")]
    return out


def variants(sel):
    """Parameter sets 0 (default), 1, 2."""
    out = [C.params(sel)]
    for k in (1, 2):
        cnt = [0]

        def change(d):
            data = {}
            for n, v in d["data"].items():
                cnt[0] += 1
                data[n] = v * (1 + 0.1 * k) + 0.07 * cnt[0] * k
            return dict(data=data, children={p: change(c) for p, c in d["children"].items()})

        out.append(change(C.params(sel)))
    return out


def tree(d):
    from lumos.models.tree_utils import ParameterTree

    return ParameterTree.from_dict(d)


def nodes(sel, path=()):
    yield path, sel
    for p, s in sel[1].items():
        yield from nodes(s, path + (p,))


def fault_list(sel):
    """(path, fault, expected exception or None) for every place."""
    out = []
    for path, s in nodes(sel):
        for i, (p, c) in enumerate(s[1].items()):
            for f, t in (("forget", KeyError), ("input", KeyError), ("twice", RuntimeError), ("raise", ArithmeticError),
                         ("unknown", KeyError), ("extra", None)):
                out.append((path, (f, i), t))
            if C.SPEC[c[0]][0] == "ss":
                out.append((path, ("state", i), KeyError))
        out.append((path, ("late", None), ArithmeticError))
        if C.SPEC[s[0]][3]:
            out.append((path, ("output", None), KeyError))
        if C.SPEC[s[0]][0] == "ss":
            out.append((path, ("dot", None), KeyError))
    return out


class Machine:
    """The model under test together with what it must compute."""

    def __init__(self, sel, rec):
        from lumos.models.composition import ModelMaker

        C.register()
        self.sel, self.rec = sel, rec
        self.m = ModelMaker.make_model_from_config(C.config_of(sel))
        self.ss = C.SPEC[sel[0]][0] == "ss"
        self.prms = variants(sel)
        self.p = 0
        self.cons = C.SPEC[sel[0]][4]
        self.names = C.names(sel)
        self.held = [tree(p) for p in self.prms]  # trees the caller holds and passes again
        self.own = tree(self.prms[0])  # and one the caller changes in place between calls

    def point(self, k):
        s, u, mesh = POINTS[k]
        return {n: s[n] for n in self.names.get("states", ())}, {n: u[n] for n in self.names["inputs"]}, mesh

    def expected(self, k, p=None):
        s, u, mesh = self.point(k)
        return C.evaluate(self.sel, self.prms[self.p if p is None else p], u, s, mesh)

    def check_dict(self, r, k, what):
        o, d = self.expected(k)
        self.rec.check(set(r.outputs) >= set(o), "output-names", f"{what}: outputs {sorted(r.outputs)}, expected {sorted(o)}")
        self.rec.close([r.outputs[n] for n in o], [o[n] for n in o], "outputs", f"{what}: outputs {list(o)}")
        if self.ss:
            self.rec.close([r.states_dot[n] for n in d], [d[n] for n in d], "dot", f"{what}: states_dot")

    def check_arrays(self, r, k, what):
        o, d = self.expected(k)
        self.rec.close(r.outputs, [o[n] for n in self.names["outputs"]], "outputs", f"{what}: outputs")
        self.rec.close(r.residuals, [o[n] for n in self.names["residuals"]], "residuals", f"{what}: residuals")
        if self.ss:
            self.rec.close(r.states_dot, [d[n] for n in self.names["states"]], "dot", f"{what}: states_dot")
            self.rec.close(r.con_outputs, [o[n] for n in self.cons], "con_outputs", f"{what}: con_outputs")

    def call(self, fn, k, arrays=False, params=None, order=None):
        s, u, mesh = self.point(k)
        if order:
            s, u = {n: s[n] for n in order[0]}, {n: u[n] for n in order[1]}
        if arrays:
            s = np.array([s[n] for n in self.names.get("states", ())])
            u = np.array([u[n] for n in self.names["inputs"]])
        keep = (dict(s), dict(u)) if not arrays else (s.copy(), u.copy())
        a = [s, u, mesh] if self.ss else [u]
        if params is not None:
            a.append(params)
        try:
            return fn(*a)
        finally:
            same = (s, u) == keep if not arrays else (np.array_equal(s, keep[0]) and np.array_equal(u, keep[1]))
            self.rec.check(same, "mutated", "the call changed the caller's inputs")

    def node(self, path):
        return self.m.get_submodel(".".join(path)) if path else self.m

    # -- operations -----------------------------------------------------------------
    def do(self, op):
        kind = op[0]
        m, rec = self.m, self.rec
        if kind == "dict":
            self.check_dict(self.call(m.forward, op[1]), op[1], "dict call")
        elif kind == "array":
            self.check_arrays(self.call(m.forward_with_arrays, op[1], arrays=True), op[1], "array call")
        elif kind == "apply":
            self.p = op[2]
            t = self.held[op[2]]
            before = t.to_dict()
            self.check_dict(self.call(m.apply_and_forward, op[1], params=t), op[1], f"call with parameters {op[2]}")
            rec.check(same_tree(t.to_dict(), before), "mutated", "the call changed the caller's parameters")
        elif kind == "apply_arrays":
            self.p = op[2]
            t = self.own
            for path, v in L.leaves(tree(self.prms[op[2]])):
                t.set_param(path, v)
            self.check_arrays(self.call(m.apply_and_forward_with_arrays, op[1], arrays=True, params=t), op[1], f"array call with parameters {op[2]}")
        elif kind == "set":
            self.p = op[1]
            t = tree(self.prms[op[1]])
            m.set_recursive_params(t)
            for path, v in L.leaves(t):  # the model keeps its own copy of the values' places
                t.set_param(path, -99.0)
        elif kind == "get":
            t = m.get_recursive_params()
            rec.check(same_tree(t.to_dict(), self.prms[self.p]), "params", "parameters of the model")
            for path, v in L.leaves(t):
                t.set_param(path, -77.0)
        elif kind == "cons":
            self.cons = op[1]
            m.set_con_outputs(op[1])
        elif kind == "trace":
            import jax
            import lumos.numpy as lnp

            with lnp.use_backend("jax"):
                n = [len(self.names["states"])] if self.ss else []
                shapes = [jax.ShapeDtypeStruct((k,), np.float64) for k in n + [len(self.names["inputs"])]]
                r = jax.eval_shape(m.forward_with_arrays, *(shapes + [1.0] if self.ss else shapes))
            rec.check(r.outputs.shape == (len(self.names["outputs"]),), "trace", f"traced outputs have shape {r.outputs.shape}")
        elif kind == "casadi":
            import casadi as cas
            import lumos.numpy as lnp

            with lnp.use_backend("casadi"):
                x, u = cas.SX.sym("x", len(self.names.get("states", ()))), cas.SX.sym("u", len(self.names["inputs"]))
                r = m.forward_with_arrays(*((x, u, 2.5) if self.ss else (u,)))
                f = cas.Function("f", [x, u], [r.outputs])
            s, uu, _ = self.point(0)
            got = np.array(f(np.array(list(s.values())), np.array(list(uu.values())))).ravel()
            if len(self.names["outputs"]):
                rec.close(got, [self.expected(0)[0][n] for n in self.names["outputs"]], "outputs", "symbolic call")
        elif kind == "sub":  # calling a submodel on its own does not disturb its parent
            path = list(nodes(self.sel))[1][0]
            sub = self.node(path)
            sel, prm = self.sel, self.prms[self.p]
            for p in path:
                sel, prm = sel[1][p], prm["children"][p]
            args = {n: 0.3 * (i + 1) for i, n in enumerate(C.SPEC[sel[0]][1])}
            st = {n: 0.2 * (i + 1) for i, n in enumerate(C.SPEC[sel[0]][2])}
            o, _ = C.evaluate(sel, prm, args, st, 0.5)
            r = sub.forward(st, args, 0.5) if st else sub.forward(args)
            rec.close([r.outputs[n] for n in o], list(o.values()), "outputs", f"submodel {path} on its own")
        elif kind == "fault":
            self.fault(op[1], op[2], op[3])

    def fault(self, path, f, exc):
        node = self.node(path)
        node.fault = f
        try:
            if exc is None:
                self.check_dict(self.call(self.m.forward, 0), 0, f"call with fault {f} at {path}")
            else:
                self.rec.expect_raises(lambda: self.call(self.m.forward, 0), "fault", f"call with fault {f} at {path}", (exc,))
        finally:
            node.fault = None

    def observe(self, what):
        for k in range(2):
            self.check_dict(self.call(self.m.forward, k), k, what)
        self.check_arrays(self.call(self.m.forward_with_arrays, 0, arrays=True), 0, what)
        self.rec.check(tuple(self.m.get_group_names("outputs")) == self.names["outputs"], "names", f"{what}: output names")
        self.rec.check(same_tree(self.m.get_recursive_params().to_dict(), self.prms[self.p]), "params", f"{what}: parameters of the model")


def same_tree(d, e):
    if list(d["data"]) != list(e["data"]) or list(d["children"]) != list(e["children"]):
        return False
    return all(np.array_equal(d["data"][n], e["data"][n]) for n in d["data"]) and all(
        same_tree(d["children"][c], e["children"][c]) for c in d["children"])


def ops(sel):
    outs = C.names(sel)["outputs"]
    out = [("dict", 0), ("dict", 1), ("array", 1), ("apply", 0, 1), ("apply_arrays", 1, 2), ("apply_arrays", 0, 0), ("set", 1), ("set", 0), ("get",),
           ("trace",), ("casadi",), ("sub",)]
    if C.SPEC[sel[0]][0] == "ss":
        out += [("cons", ()), ("cons", (outs[-1], outs[0]))]
    fl = fault_list(sel)
    # one fault of every kind, at the deepest place where it exists
    kinds = {}
    for path, f, t in fl:
        kinds[f[0]] = ("fault", path, f, t)
    return out + list(kinds.values())


def run_histories(unit, rec):
    sel = SELS[unit["i"]]
    alphabet = ops(sel)
    for n in range(1, unit["depth"] + 1):
        # histories of length n are prefixes of longer ones: run only the longest, observing after every step
        if n < unit["depth"]:
            continue
        for seq in itertools.product(range(len(alphabet)), repeat=n - 1):
            hist = (unit["first"],) + seq
            # traced and symbolic calls are slow: one per history, with calls before and after it
            slow = [k for k, i in enumerate(hist) if alphabet[i][0] in ("trace", "casadi")]
            if len(slow) > 1 or (slow and slow[0] != 1):
                continue
            case = [alphabet[i] for i in hist]
            rec.at(dict(sel=str(sel), history=case))
            mc = Machine(sel, rec)
            for i in hist:
                mc.do(alphabet[i])
                rec.transition()
            mc.observe(f"after {case}")
            rec.state((unit["i"], mc.p, mc.cons))
            rec.trace()
            rec.nontrivial(hist)
    rec.sample(dict(history=[alphabet[i] for i in hist]))


def run_faults(unit, rec):
    """Every fault at every place, alone and followed by every other one."""
    sel = SELS[unit["i"]]
    fl = fault_list(sel)
    for a in fl:
        mc = Machine(sel, rec)
        for b in [None] + fl:
            rec.at(dict(sel=str(sel), faults=[a, b]))
            mc.fault(*a)
            if b:
                mc.fault(*b)
            mc.observe(f"after the faults {a} {b}")
            rec.transition(2)
            rec.trace()
            rec.state((unit["i"], a, b))
            rec.nontrivial((a, b))


def run_names(unit, rec):
    """All orders and subsets of names."""
    sel = SELS[unit["i"]]
    mc = Machine(sel, rec)
    sn, un = mc.names.get("states", ()), mc.names["inputs"]
    for so in itertools.permutations(sn):
        for uo in itertools.permutations(un):
            rec.at(dict(sel=str(sel), order=[so, uo]))
            mc.check_dict(mc.call(mc.m.forward, 0, order=(so, uo)), 0, f"names in the order {so} {uo}")
            for g, order, vals in (("states", so, POINTS[0][0]), ("inputs", uo, POINTS[0][1])):
                if g not in mc.names:
                    continue
                d = {n: vals[n] for n in order}
                rec.close(mc.m.make_vector(g, **d), [vals[n] for n in mc.names[g]], "vector", f"make_vector({g}) in the order {order}")
                rec.check(mc.m.make_dict(g, **d) == d, "dict", f"make_dict({g})")
            rec.transition()
            rec.trace()
            rec.nontrivial((so, uo))
    for g, names in mc.names.items():
        vec = mc.m.make_const_vector(g, 1.5)
        rec.close(vec, [1.5] * len(names), "const", f"make_const_vector({g})")
        rec.check(mc.m.make_const_dict(g, 0.5) == {n: 0.5 for n in names}, "const", f"make_const_dict({g})")
        rec.check(mc.m.make_random_vector(g).shape == (len(names),), "const", f"make_random_vector({g})")
        full = {n: float(i) for i, n in enumerate(names)}
        for r in range(len(names) + 1):
            for sub in itertools.combinations(names, r):
                for extra in ((), ("nosuch",)):
                    rec.at(dict(sel=str(sel), group=g, given=[sub, extra]))
                    d = {**{n: full[n] for n in sub}, **{n: 9.0 for n in extra}}
                    if r == len(names):
                        if names or extra:
                            rec.close(mc.m.make_vector(g, **d), list(full.values()), "vector", f"make_vector({g}) of {sub} and {extra}")
                            got = mc.m.make_dict(g, **d)
                            rec.check({n: got[n] for n in names} == full, "dict", f"make_dict({g}) of {sub} {extra}: {got}")
                    else:
                        rec.expect_raises(lambda: mc.m.make_vector(g, **d), "vector", f"make_vector({g}) of {sub} {extra}", (KeyError,))
                        rec.expect_raises(lambda: mc.m.make_dict(g, **d), "dict", f"make_dict({g}) of {sub} {extra}", (KeyError,))
                    rec.nontrivial((g, sub, extra))
            if len(names) > 6:
                break
    # accessors by name
    s, u, _ = mc.point(0)
    for n in un:
        rec.check(mc.m.get_input(np.array(list(u.values())), n) == u[n], "access", f"get_input {n}")
    for n in sn:
        rec.check(mc.m.get_state(np.array(list(s.values())), n) == s[n], "access", f"get_state {n}")
    out = np.arange(len(mc.names["outputs"])) + 0.5
    for i, n in enumerate(mc.names["outputs"]):
        rec.check(mc.m.get_output(out, n) == i + 0.5, "access", f"get_output {n}")
    mc.observe("after all orders")
    rec.state(("names", unit["i"]))


def run_library(unit, rec):
    """The library models: any order of names, arrays, and calls in between."""
    name = unit["name"]
    m = L.make_model(name)
    pts = [L.nominal(name, k) for k in range(3)]
    want = {}
    for k, (s, u, mesh) in enumerate(pts):
        rec.at(dict(name=name, point=k))
        want[k] = m.forward(dict(s), dict(u), mesh)
    for hist in itertools.product(range(3), ("dict", "reversed", "array", "other", "missing"), repeat=2):
        rec.at(dict(name=name, history=hist))
        for k, how in (hist[:2], hist[2:]):
            s, u, mesh = pts[k]
            if how == "reversed":
                s, u = dict(reversed(s.items())), dict(reversed(u.items()))
            if how == "missing":
                for n in list(u):
                    bad = {q: v for q, v in u.items() if q != n}
                    rec.expect_raises(lambda: m.forward(s, bad, mesh), "missing", f"{name} without input {n}", (KeyError,))
                for n in list(s):
                    bad = {q: v for q, v in s.items() if q != n}
                    try:
                        r = m.forward(bad, u, mesh)
                    except KeyError:
                        pass
                    else:  # allowed only when the value does not matter
                        rec.close([r.states_dot[q] for q in m.names.states], [want[k].states_dot[q] for q in m.names.states], "missing",
                                  f"{name} without state {n}")
            elif how == "array":
                r = m.forward_with_arrays(np.array([s[n] for n in m.names.states]), np.array([u[n] for n in m.names.inputs]), mesh)
                rec.close(r.states_dot, [want[k].states_dot[n] for n in m.names.states], "dot", f"{name} states_dot")
                rec.close(r.outputs, [want[k].outputs[n] for n in m.names.outputs], "outputs", f"{name} outputs")
                rec.close(r.residuals, [want[k].outputs[n] for n in m.names.residuals], "residuals", f"{name} residuals")
            else:
                mm = m if how != "other" else L.make_model(name)
                r = mm.forward(s, u, mesh)
                rec.check(set(r.outputs) == set(m.names.outputs) and set(r.states_dot) == set(m.names.states), "names", f"{name} names returned")
                rec.close([r.outputs[n] for n in m.names.outputs], [want[k].outputs[n] for n in m.names.outputs], "outputs", f"{name} outputs")
                rec.close([r.states_dot[n] for n in m.names.states], [want[k].states_dot[n] for n in m.names.states], "dot", f"{name} states_dot")
            rec.transition()
        rec.state((name, hist))
        rec.trace()
        rec.nontrivial((name, hist))


LEAVES = ("ConstAero", "GPAero", "MLPAero", "PerantoniTire", "MF52", "TrackPosition2D", "DroneModel")


def owned_models():
    """(label, function building the model): the library models, alone and nested."""
    import lumos.models  # noqa: F401
    from lumos.models.composition import ModelMaker
    from lumos.models.drone_model import DroneModel

    def leaf(n):
        m = DroneModel() if n == "DroneModel" else ModelMaker.make_model_from_name(n)
        p = m.get_recursive_params()
        for q, v in {"GPAero": L.GP, "MLPAero": L.mlp_weights()}.get(n, {}).items():
            p.set_param(q, v)
        m.set_recursive_params(p)
        return m

    out = [(n, lambda n=n: leaf(n)) for n in LEAVES]
    for name in ("SimpleVehicle", "SimpleVehicleOnTrack"):
        for aero in ("ConstAero", "GPAero", "MLPAero"):
            out.append((f"{name} with {aero}", lambda name=name, aero=aero: L.make_model(name, None, aero)))
    return out


def parts(r):
    """name of each part of a result -> copy of its values"""
    out = {}
    for q in ("states_dot", "outputs", "con_outputs", "residuals"):
        v = getattr(r, q, None)
        if v is not None:
            out[q] = {n: np.array(x, float) for n, x in v.items()} if isinstance(v, dict) else np.array(v, float)
    return out


def same_parts(a, b, rec, key, msg):
    rec.check(set(a) == set(b), key, f"{msg}: {sorted(a)} and {sorted(b)}")
    for q in a:
        if isinstance(a[q], dict):
            rec.check(set(a[q]) == set(b[q]), key, f"{msg}: names of {q}")
            for n in a[q]:
                rec.close(b[q][n], a[q][n], key, f"{msg}: {q} {n}")
        else:
            rec.close(b[q], a[q], key, f"{msg}: {q}")


def spoil(r, how):
    """Change everything a call returned, in the ways a caller can."""
    for q in ("states_dot", "outputs", "con_outputs", "residuals"):
        v = getattr(r, q, None)
        if isinstance(v, dict):
            for n in list(v):
                if how == "set":
                    v[n] = -77.0
                elif how == "drop":
                    v.pop(n)
                elif isinstance(v[n], np.ndarray) and v[n].flags.writeable:
                    v[n][...] = -77.0
        elif isinstance(v, np.ndarray) and v.flags.writeable and how == "inplace":
            v[...] = -77.0


def run_owned(unit, rec):
    """What a call returns belongs to the caller, what it is given stays as it is: changing the returned values changes no later result."""
    for label, make in owned_models():
        m, fresh = make(), make()
        s0 = {n: 0.4 + 0.31 * i for i, n in enumerate(getattr(m.names, "states", ()))}
        u0 = {n: 0.7 + 0.23 * i for i, n in enumerate(m.names.inputs)}
        for n in s0:
            if n.startswith("wheel_speed"):
                s0[n] = 120.0 + len(s0) * 0.3
        s0.update({n: v for n, v in dict(vx=40.0).items() if n in s0})
        u0.update({n: v for n, v in dict(vx=40.0, Fz=3000.0, ax=1.0, ay=2.0, throttle=0.3, brake=0.1).items() if n in u0})
        plain = not hasattr(m.names, "states")
        args = lambda s, u: (u,) if plain else (s, u, 3.0)  # noqa: E731
        want = parts(fresh.forward(*args(dict(s0), dict(u0))))
        flat = [np.array(list(d.values())) for d in (s0, u0)]
        wanta = parts(make().forward_with_arrays(*args(flat[0].copy(), flat[1].copy())))
        before = L.leaves(fresh.get_recursive_params())
        for hist in itertools.product(("set", "drop", "inplace"), ("dict", "array"), repeat=2):
            rec.at(dict(model=label, history=hist))
            m = make()
            for how, call in (hist[:2], hist[2:]):
                s, u = dict(s0), dict(u0)
                if call == "dict":
                    r = m.forward(*args(s, u))
                    rec.check(s == s0 and u == u0, "given", f"{label}: the values given were changed by the call")
                    same_parts(want, parts(r), rec, "owned", f"{label} after {hist}")
                else:
                    a, b = flat[0].copy(), flat[1].copy()
                    r = m.forward_with_arrays(*args(a, b))
                    rec.check(np.array_equal(a, flat[0]) and np.array_equal(b, flat[1]), "given", f"{label}: the arrays given were changed by the call")
                    same_parts(wanta, parts(r), rec, "owned", f"{label} with arrays after {hist}")
                spoil(r, how)
                rec.transition()
            after = L.leaves(m.get_recursive_params())
            rec.check([n for n, _ in before] == [n for n, _ in after], "owned", f"{label}: parameter names changed")
            for (n, v), (_, w) in zip(before, after):
                rec.close(w, v, "owned", f"{label}: parameter {n}")
            same_parts(want, parts(m.forward(*args(dict(s0), dict(u0)))), rec, "owned", f"{label} after {hist}")
            rec.trace()
            rec.state((label, hist))
            rec.nontrivial((label, hist))


def run_given(unit, rec):
    """Every set of names handed to a submodel: refused exactly when one is missing, used or not."""
    from lumos.models.base import Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io
    from lumos.models.composition import ModelMaker
    from lumos.models.tree_utils import ParameterTree

    def subsets(names):
        return [s for k in range(len(names) + 1) for s in itertools.combinations(names, k)]

    @state_space_io(states=("a", "b"), inputs=("c", "d"), outputs=("o",))
    class MCgivenS(StateSpaceModel):
        def forward(self, states, inputs, mesh):  # does not look at b and d
            return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", a=states["a"], b=0.0), outputs=self.make_dict("outputs", o=states["a"] + 10 * inputs["c"] + 100 * mesh))

    @model_io(inputs=("c", "d"), outputs=("o",))
    class MCgivenM(Model):
        def forward(self, inputs):
            return ModelReturn(outputs=self.make_dict("outputs", o=10 * inputs["c"]))

    @model_io(inputs=("c",), outputs=("o",))
    class MCgivenP(Model):
        def forward(self, inputs):
            p = self._params
            return ModelReturn(outputs=self.make_dict("outputs", o=(p["k"] + p["q"]) * inputs["c"]))

        @classmethod
        def get_default_params(cls):
            return {"k": 2.0, "q": 5.0}

    for used in (False, True):
        for have in subsets(("k", "q")):
            for how in ("set", "apply", "arrays"):
                rec.at(dict(parameters=have, used=used, how=how))
                m, x = MCgivenP(), dict(c=3.0)
                if used:
                    m.forward(x)
                t = ParameterTree(data={n: dict(k=0.5, q=0.25)[n] for n in have})

                def call():
                    if how == "set":
                        m.set_recursive_params(t)
                        return m.forward(x).outputs["o"]
                    if how == "apply":
                        return m.apply_and_forward(x, t).outputs["o"]
                    return m.apply_and_forward_with_arrays(np.array([3.0]), t).outputs[0]
                if len(have) == 2:
                    rec.close(call(), 2.25, "given", "value with all parameters")
                else:
                    rec.expect_raises(call, "missing", f"parameters {have}", (KeyError,))
                rec.trace()

    @state_space_io(states=("a", "b"), inputs=("c", "d"), outputs=("y",))
    class MCgiven(StateSpaceModel):
        hand = None

        def forward(self, states, inputs, mesh):
            r = self.call_submodel("s", states=self.hand["states"], inputs=self.hand["inputs"], mesh=mesh)
            q = self.call_submodel("m", inputs=self.hand["m"])
            dot = self.make_dict("states_dot", a=r.states_dot["a"], b=0.0)
            return StateSpaceModelReturn(states_dot=dot, outputs=self.make_outputs_dict(y=r.outputs["o"] + 1000 * q.outputs["o"]))

        @classmethod
        def get_default_submodel_config(cls):
            return {"s": "MCgivenS", "m": "MCgivenM"}

    for c in (MCgivenS, MCgivenM, MCgiven):
        ModelMaker.add_to_registry(c)
    try:
        m = MCgiven()
        full = dict(states=dict(a=0.3, b=0.4), inputs=dict(c=0.5, d=0.6), m=dict(c=0.7, d=0.8))
        good = dict(a=1.0, b=2.0), dict(c=3.0, d=4.0), 2.0
        for gs, gi, gm in itertools.product(*[[(k, e) for k in subsets(tuple(full[g])) for e in ((), ("e",), ("e", "f", "A"))] for g in full]):
            hand = {g: {**{n: full[g][n] for n in k}, **{n: 9.0 for n in e}} for g, (k, e) in zip(full, (gs, gi, gm))}
            rec.at(hand)
            m.hand = hand
            if any(n not in hand[g] for g in full for n in full[g]):
                rec.expect_raises(lambda: m.forward(*good), "missing", f"a submodel is handed {hand}", (KeyError,))
            else:
                r = m.forward(*good)
                rec.close(r.outputs["y"], 0.3 + 5.0 + 200.0 + 7000.0, "given", "value with unexpected names")
            m.hand = full
            rec.close(m.forward(*good).outputs["y"], 0.3 + 5.0 + 200.0 + 7000.0, "given", "value afterwards")
            rec.trace()
        for g, names in (("states", ("a", "b")), ("inputs", ("c", "d")), ("outputs", ("y", "s.o", "m.o"))):
            for k in subsets(names):
                for e in ((), ("e",), ("e", "f", "A")):
                    rec.at(dict(group=g, names=k + e))
                    kw = {n: float(i) for i, n in enumerate(k + e)}
                    for fn in (m.make_dict, m.make_vector):
                        if len(k) < len(names):
                            rec.expect_raises(lambda: fn(g, **kw), "missing", f"{fn.__name__} of {g} from {k + e}", (KeyError,))
                        elif fn == m.make_vector:
                            rec.close(np.ravel(fn(g, **kw)), np.arange(len(names)), "given", "vector with unexpected names")
    finally:
        for c in (MCgivenS, MCgivenM, MCgiven):
            ModelMaker.remove_from_registry(c)


def run_unit(unit, rec):
    dict(histories=run_histories, faults=run_faults, names=run_names, library=run_library, given=run_given, owned=run_owned)[unit["kind"]](unit, rec)
