"""C26: exported C code, compiled and called through its published interface, against the model's own evaluation."""
import ctypes
import itertools
import os
import subprocess
import tempfile

import numpy as np

from mc import core
from mc import libmodels as LM
from mc import models as M
from mc import ref as R

CHECK = dict(
    id="C26",
    level="exploration",
    technique="exhaustive enumeration of exported programs (model x submodel choice x constrained outputs x symbolic type x options) and of all export "
    "histories up to the bound; each program is compiled with the system C compiler and executed at all operating points and with every single parameter "
    "departure, against the model's own numerical evaluation",
    rule="all programs of the table x operating points x {nominal, each flat parameter changed}; all sequences of exports up to length 4 into one folder; a case "
    "is one call of the compiled function",
    assumptions=["the C compiler is right"],
    note="All programs of the table at all points and parameter departures; all export histories up to the bound.",
)
TINY = dict(A=M.TinyA, AR=M.TinyARes, AM=M.TinyAMesh, B=M.TinyB, C=M.TinyC, L=M.TinyL)
LIB = [("DroneModel", None, None), ("TrackPosition2D", None, None)] + [(n, t, a) for n in ("SimpleVehicle", "SimpleVehicleOnTrack") for t, a in
                                                                        itertools.product(("PerantoniTire", "MF52"), ("ConstAero", "GPAero", "MLPAero"))]
OUTS = dict(A=(["o2", "o1"],), AR=(["o1"], []), AM=([],), B=([],), C=(["left.f", "tot"], []), L=(["y"],), DroneModel=(["f_omega"], []), TrackPosition2D=(["curvature"],),
            SimpleVehicle=(["Fz_tire_fr", "ay", "slip_angle_rl"],), SimpleVehicleOnTrack=(["vehicle.Fz_tire_fr", "vehicle.slip_ratio_rl"],))


def make(key):
    name, tire, aero = key
    return TINY[name]() if name in TINY else LM.make_model(name, tire, aero)


def programs():
    out = []
    for n in TINY:
        out += [((n, None, None), o, ty, k) for o in OUTS[n] for ty in ("MX", "SX") for k in (0, 1)]
    for key in LIB:
        for o in OUTS[key[0]]:
            for ty in ("MX", "SX"):
                big = key[0].startswith("SimpleVehicle")
                if big and ty == "SX" and not (key[1] == "PerantoniTire" or key[2] == "GPAero"):
                    continue
                out.append((key, o, ty, 0 if key[0] != "DroneModel" else 1))
    return out


def units(tier):
    q = tier == "quick"
    out = [dict(kind="program", program=[list(p[0]), list(p[1]), p[2], p[3]], quick=q) for p in programs()]
    if q:
        out = [u for u in out if not (u["program"][0][0] == "SimpleVehicleOnTrack" and u["program"][2] == "SX")]
    out += [dict(kind="history", first=i, depth=3 if q else 4) for i in range(len(HOPS))]
    return out + [dict(kind="failed")]


class Compiled:
    """The exported function, called through ctypes as a C program would."""

    def __init__(self, c, so):
        r = subprocess.run(["gcc", "-O0", "-fPIC", "-shared", "-I.", "-w", c, "-o", so, "-lm"], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("generated code does not compile: " + r.stderr[:500])
        self.lib = L = ctypes.CDLL(so)
        LL = ctypes.c_longlong
        for f, rt in (("forward_n_in", LL), ("forward_n_out", LL), ("forward_name_in", ctypes.c_char_p), ("forward_name_out", ctypes.c_char_p),
                      ("forward_sparsity_in", ctypes.POINTER(LL)), ("forward_sparsity_out", ctypes.POINTER(LL))):
            getattr(L, f).restype = rt
            getattr(L, f).argtypes = [LL] if "name" in f or "sparsity" in f else []
        self.n_in, self.n_out = L.forward_n_in(), L.forward_n_out()
        self.sp_in = [self.sparsity(L.forward_sparsity_in(i)) for i in range(self.n_in)]
        self.sp_out = [self.sparsity(L.forward_sparsity_out(i)) for i in range(self.n_out)]
        z = [LL(0) for _ in range(4)]
        L.forward_work(*[ctypes.byref(a) for a in z])
        self.sz = [a.value for a in z]

    @staticmethod
    def sparsity(p):
        """(rows, cols, list of (r, c) in storage order)"""
        nr, nc = p[0], p[1]
        if p[2] == 1 and nr * nc:  # dense marker
            return nr, nc, [(r, c) for c in range(nc) for r in range(nr)]
        colind = [p[2 + i] for i in range(nc + 1)]
        return nr, nc, [(p[2 + nc + 1 + k], c) for c in range(nc) for k in range(colind[c], colind[c + 1])]

    def __call__(self, *args):
        D, P = ctypes.c_double, ctypes.POINTER(ctypes.c_double)
        arg, res, keep = (P * max(self.sz[0], self.n_in))(), (P * max(self.sz[1], self.n_out))(), []
        for i, (a, (nr, nc, nz)) in enumerate(zip(args, self.sp_in)):
            a = np.asarray(a, float).reshape(-1)
            if a.size != nr * nc or len(nz) != nr * nc:
                raise ValueError(f"argument {i}: the function takes {nr} x {nc} ({len(nz)} entries), given {a.size}")
            keep.append((D * max(1, a.size))(*a))
            arg[i] = ctypes.cast(keep[-1], P)
        outs = []
        for i, (nr, nc, nz) in enumerate(self.sp_out):
            outs.append((D * max(1, len(nz)))(*([float("nan")] * max(1, len(nz)))))
            res[i] = ctypes.cast(outs[-1], P)
        iw, w = (ctypes.c_longlong * max(1, self.sz[2]))(), (D * max(1, self.sz[3]))()
        if self.lib.forward(arg, res, iw, w, 0):
            raise RuntimeError("the exported function reports an error")
        vals = []
        for o, (nr, nc, nz) in zip(outs, self.sp_out):
            a = np.zeros((nr, nc))
            for v, (r, c) in zip(o, nz):
                a[r, c] = v
            vals.append(a.reshape(-1))
        return vals


class Folder:
    """Exports go to the current folder."""

    def __enter__(self):
        self.t = tempfile.TemporaryDirectory(dir=core.scratch_dir())
        self.old = os.getcwd()
        os.chdir(self.t.name)
        return self.t.name

    def __exit__(self, *a):
        os.chdir(self.old)
        self.t.cleanup()


_N = [0]


def compiled(cfile):
    _N[0] += 1
    return Compiled(cfile, os.path.join(os.getcwd(), f"lib{os.getpid()}_{_N[0]}.so"))


def points(name, model, k):
    """Operating point k as dictionaries."""
    if name in LM.NOMINAL:
        return LM.nominal(name, k)
    f = lambda ns, o: {n: float(0.3 + 0.4 * np.sin(1.1 * (i + 1) + k + o)) for i, n in enumerate(ns)}  # noqa: E731
    return f(model.names.states, 0.0), f(model.names.inputs, 2.0), 0.7 + k


def flat_leaves(model):
    """[(path, index or None, value)] in the order of the tree, arrays row by row."""
    out = []
    for path, v in LM.leaves(model.get_recursive_params()):
        if np.shape(v) == ():
            out.append((path, None, float(v)))
        else:
            a = np.asarray(v, float)
            out += [(path, ix, float(a[ix])) for ix in np.ndindex(*a.shape)]
    return out


def ordered_leaves(model):
    """As flat_leaves, in the published order of the flat parameters: sorted? taken from the names of the flat dictionary."""
    return flat_leaves(model)


def evaluate(model, s, u, mesh):
    """The model's own evaluation in the published order."""
    r = model.forward(s, u, mesh)
    o = dict(r.outputs)
    o.update({n.split(".")[-1]: v for n, v in r.outputs.items() if n.split(".")[-1] not in o})
    pick = lambda d, ns: np.array([float(d[n]) for n in ns])  # noqa: E731
    return [pick(r.states_dot, model.names.states), pick(r.outputs, model.names.outputs), pick(o, model.names.con_outputs), pick(o, model.names.residuals)]


def compare(f, model, name, rec, k=0, params=None):
    s, u, mesh = points(name, model, k)
    flat = np.array([v for _, _, v in flat_leaves(model)]) if params is None else params
    got = f([s[n] for n in model.names.states], [u[n] for n in model.names.inputs], [mesh], flat)
    want = evaluate(model, s, u, mesh)
    rec.check(len(got) == 4, "results", lambda: f"{len(got)} results")
    for g, w, what in zip(got, want, ("states_dot", "outputs", "con_outputs", "residuals")):
        rec.check(len(g) == len(w), what, lambda: f"{len(g)} {what}, model has {len(w)}")
        rec.close(g, w, what, what, rtol=1e-9, atol=1e-9 * (1 + (np.max(np.abs(w)) if len(w) else 0.0)))
    rec.outcome("calls of compiled code")


def export(model, cfile, ty="MX", **kw):
    import casadi as cas

    model.export_c_code(cfile, CasType=getattr(cas, ty), **kw)


def run_unit(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)


def run_program(unit, rec):
    import lumos.numpy as lnp

    key, outs, ty, opt = unit["program"]
    name = key[0]
    model = make(key)
    model.set_con_outputs(tuple(outs))
    before = flat_leaves(model)
    rec.at(dict(program=unit["program"]))
    with Folder() as d:
        kw = [{}, dict(options=dict(with_header=True), includes=["math.h"] + [f"mc_{k}.h" for k in "qdzam"])][opt]
        for k in "qdzam":  # every header needs the one before
            with open(f"mc_{k}.h", "w") as h:
                h.write(f"#ifndef MC_{dict(zip('qdzam', 'oqdza'))[k]}\n#error order of the headers\n#endif\n" * (k != "q") + f"#define MC_{k} 1\n")
        export(model, "model.c", ty, **kw)
        rec.check(os.path.exists(os.path.join(d, "model.c")), "file", "no file of the requested name")
        if opt:
            rec.check(os.path.exists(os.path.join(d, "model.h")), "file", "no header")
            rec.check("math.h" in open("model.c").read(), "file", "included header not in the code")
        rec.check(lnp.get_backend() == "numpy", "backend", "backend changed by the export")
        rec.check(flat_leaves(model) == before, "parameters", "parameters of the model changed by the export")
        f = compiled("model.c")
        rec.check(f.n_in == 4, "arguments", lambda: f"{f.n_in} arguments")
        sizes = [len(model.names.states), len(model.names.inputs), 1, len(before)]
        rec.check([a * b for a, b, _ in f.sp_in] == sizes, "arguments", lambda: f"argument sizes {[(a, b) for a, b, _ in f.sp_in]}, model has {sizes}")
        for k in range(6 if unit["quick"] else 20):
            rec.at(dict(program=unit["program"], point=k))
            compare(f, model, name, rec, k)
        # every flat parameter reaches its place
        todo = range(len(before))
        if unit["quick"] and len(before) > 2000:
            todo = [i for i in todo if i % 3 == 0]
        for i in todo:
            path, ix, v = before[i]
            new = v * 1.07 + 0.013
            tree = model.get_recursive_params()
            if ix is None:
                tree.set_param(path, new)
            else:
                a = np.array(dict(LM.leaves(tree))[path], float)
                a[ix] = new
                tree.set_param(path, a)
            saved = model.get_recursive_params()
            model.set_recursive_params(tree)
            flat = np.array([w for _, _, w in before])
            flat[i] = new
            rec.at(dict(program=unit["program"], parameter=path, index=ix))
            compare(f, model, name, rec, i % 4, flat)
            old = np.array(dict(LM.leaves(saved))[path], float)
            if ix is not None:
                old[ix] = v
            tree.set_param(path, v if ix is None else old)
            model.set_recursive_params(tree)
        rec.check(flat_leaves(model) == before, "harness", "harness did not restore the parameters")
    rec.nontrivial(unit["program"])


HOPS = ["export A a", "export A b", "export C a", "export C b", "change A", "change C", "outs A", "call A", "export A sx", "jax"]


def run_history(unit, rec):
    """All sequences of exports of two models into one folder, with changes in between; every file is executed at the end."""
    import lumos.numpy as lnp

    for tail in itertools.chain(*[itertools.product(range(len(HOPS)), repeat=n) for n in range(unit["depth"])]):
        seq = [HOPS[i] for i in (unit["first"],) + tail]
        if not any(o.startswith("export") for o in seq):
            seq = seq + ["export A a", "export C b"]
        rec.at(dict(history=seq))
        ms = {n: make((n, None, None)) for n in "AC"}
        ms["A"].set_con_outputs(("o1",))
        files = {}
        with Folder():
            for op in seq:
                w = op.split()
                if w[0] == "export":
                    export(ms[w[1]], "f_" + w[2] + ".c", "SX" if w[2] == "sx" else "MX")
                    files["f_" + w[2] + ".c"] = (w[1], tuple(ms[w[1]].names.con_outputs))
                elif w[0] == "change":
                    t = ms[w[1]].get_recursive_params()
                    t.set_param("a" if w[1] == "A" else "left.k", 5.5)
                    ms[w[1]].set_recursive_params(t)
                elif w[0] == "outs":
                    ms["A"].set_con_outputs(("o2", "r1"))
                elif w[0] == "call":
                    s, u, m = points("A", ms["A"], 1)
                    ms["A"].forward(s, u, m)
                else:
                    s, u, m = points("C", ms["C"], 1)
                    with lnp.use_backend("jax"):
                        ms["C"].forward(s, u, m)
            for fn, (n, outs) in files.items():
                rec.at(dict(history=seq, file=fn))
                f = compiled(fn)
                ms[n].set_con_outputs(outs)
                for k in (0, 3):
                    compare(f, ms[n], n, rec, k)
        rec.nontrivial(seq)
        rec.outcome("export histories")


def run_failed(unit, rec):
    """An export that fails leaves the model and the backend as they were, and a later one works."""
    import casadi as cas

    import lumos.numpy as lnp

    class Broken(M.TinyA):
        fail = True

        def forward(self, states, inputs, mesh=0.0):
            if self.fail:
                raise ArithmeticError("planted")
            return super().forward(states, inputs, mesh)

    for ty in ("MX", "SX"):
        m = Broken()
        before = flat_leaves(m)
        rec.at(dict(failed=ty))
        with Folder():
            rec.expect_raises(lambda: export(m, "x.c", ty), "failing model", "export of a failing model")
            rec.check(lnp.get_backend() == "numpy", "backend", "backend after a failed export")
            rec.check(flat_leaves(m) == before, "parameters", "parameters after a failed export")
            rec.check(not any(isinstance(v, (cas.MX, cas.SX)) for _, v in LM.leaves(m.get_recursive_params())), "parameters", "symbolic parameters left in the model")
            m.fail = False
            export(m, "x.c", ty)
            compare(compiled("x.c"), m, "A", rec, 1)
        rec.nontrivial(ty)
