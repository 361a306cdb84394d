"""C15: a batched map is the elementwise function, in order."""
import itertools
from collections import namedtuple

import numpy as np

from mc import ref as R

CHECK = dict(
    id="C15",
    level="exploration",
    technique="exhaustive enumeration of map strategies, mapped-argument subsets, argument and result forms, batch sizes, worker "
    "counts and call histories with changing batch sizes, against element by element evaluation",
    rule="every combination of argument kinds (mapped/unmapped scalars, vectors, matrices, dictionaries) and result forms for the "
    "serial map; every mapped subset x batch size x worker count x result form for the threaded map; all sequences of batch sizes "
    "up to the depth bound on one map; batched forms of the models on all backends; each combination is a distinct case",
    assumptions=["threaded maps: arguments are scalars or vectors, results vectors, or matrices in sparse form, as documented"],
    note="All combinations within the bounds; expected values come from calling the plain function on each element.",
)
Pair = namedtuple("Pair", "first second")


def units(tier):
    quick = tier == "quick"
    sizes = [1, 2, 3, 5, 8, 17] if quick else list(range(1, 18)) + [31, 32, 33, 64, 65]
    out = [dict(kind="lmap", n=n, res=r) for n in ((1, 2, 3, 5) if quick else (1, 2, 3, 4, 5, 7, 16)) for r in ("scalar", "array", "tuple", "named", "matrix")]
    out += [dict(kind="cmap", n=n, workers=w) for n in sizes for w in (1, 2, 3, 32)]
    out += [dict(kind="batches", depth=3 if quick else 4, workers=w) for w in (1, 3, 32)]
    models = ["A", "AM", "C", "L"] if quick else ["A", "AR", "AM", "B", "C", "L"]
    out += [dict(kind="model", model=m, backend=b, tier=tier) for m in models for b in ("casadi", "jax", "custom")
            if b != "custom" or m in ("A", "AR", "AM")]
    return out


# -- serial map ----------------------------------------------------------------------
KINDS = ("ms", "mv", "mm", "us", "uv", "ud")  # mapped / unmapped x scalar, vector, matrix, dictionary


def make(kind, n, k):
    g = lambda *s: R.generic(int(np.prod(s)), k).reshape(s)  # noqa: E731
    if kind == "us":
        return float(R.generic(1, k)[0])
    if kind == "uv":
        return g(4)
    if kind == "ud":
        return dict(a=float(R.generic(1, k)[0]), b=g(2))
    return g(n, *{"s": (), "v": (3,), "m": (2, 3)}[kind[1]])


def scal(x, k):
    """A number that depends on every part of x."""
    if isinstance(x, dict):
        return x["a"] + 2.0 * scal(x["b"], k + 1)
    x = np.asarray(x)
    if x.ndim == 0:
        return (1 + k) * x
    return sum((1.5 + i + k) * v for i, v in enumerate(x.ravel()))


def results(form, vals):
    a = sum((i + 1) * v for i, v in enumerate(vals))
    b = 1.0
    for v in vals:
        b = b * (v + 0.5)
    if form == "scalar":
        return a * b
    if form == "array":
        return np.array([a, b, a - b])
    if form == "matrix":
        return np.array([[a, b], [b * 2, a + b], [a * 3, b - a]])
    if form == "tuple":
        return a, np.array([b, a])
    return Pair(np.array([a, b]), b - a)


def run_lmap(unit, rec):
    import lumos.numpy as lnp

    n, form = unit["n"], unit["res"]
    fn = lambda *args: results(form, [scal(a, i) for i, a in enumerate(args)])  # noqa: E731
    for r in (1, 2, 3):
        for kinds in itertools.product(KINDS, repeat=r):
            axes = [0 if k[0] == "m" else None for k in kinds]
            if all(a is None for a in axes):
                continue
            for how in (["list"] if any(a is None for a in axes) else ["list", "int", "default"]):
                rec.at(dict(kinds=kinds, n=n, result=form, in_axes=how))
                args = [make(k, n, 3 + i) for i, k in enumerate(kinds)]
                f = lnp.lmap(fn) if how == "default" else lnp.lmap(fn, in_axes=axes if how == "list" else 0)
                want = [fn(*[a if ax is None else a[i] for a, ax in zip(args, axes)]) for i in range(n)]
                for again in range(2):  # and again with the same map
                    compare(f(*args), want, form, rec, f"lmap of {kinds}")
                rec.nontrivial((kinds, n, form, how))
            if r > 1:
                rec.expect_raises(lambda: lnp.lmap(fn, in_axes=axes)(*args[:-1]), "arity", "lmap with too few arguments")
                rec.expect_raises(lambda: lnp.lmap(fn, in_axes=axes)(*args, args[0]), "arity", "lmap with too many arguments")


def compare(got, want, form, rec, what):
    if form in ("tuple", "named"):
        rec.check(isinstance(got, tuple) and len(got) == 2, "form", f"{what}: result is {type(got)}")
        if form == "named":
            rec.check(isinstance(got, Pair), "form", f"{what}: result is {type(got)}")
        for k in range(2):
            rec.close(got[k], np.array([w[k] for w in want]), "value", f"{what}: part {k}", rtol=1e-13)
    else:
        rec.close(got, np.array(want), "value", what, rtol=1e-13)


# -- threaded map ----------------------------------------------------------------------
def cas_functions(g=1.0):
    """Functions with the same names and signatures for every g, but other values."""
    import casadi as cas

    x, s, p = cas.SX.sym("x", 3), cas.SX.sym("s"), cas.SX.sym("p", 2)
    lam = cas.SX.sym("lam", 2)
    y = cas.vertcat(g * x[0] * x[1] + s * p[0], cas.sin(g * x[2]) * p[1] + s ** 2)
    jac = cas.jacobian(y, x)
    hes = cas.hessian(cas.dot(lam, y), x)[0]
    F = {
        "vector": cas.Function("f", [x, s, p], [y]),
        "scalar": cas.Function("f1", [x, s, p], [cas.dot(y, y)]),
        "several": cas.Function("f2", [x, s, p], [y, x * s, s * p[0]]),
        "jac": cas.Function("j", [x, s, p], [jac]),
        "hess": cas.Function("h", [x, lam, s, p], [hes]),
        "dense": cas.Function("d", [x, s, p], [cas.densify(jac)]),
    }
    return F


def cas_args(form, n, axes, k):
    sizes = (3, 2, None, 2) if form == "hess" else (3, None, 2)
    out = []
    for i, (sz, ax) in enumerate(zip(sizes, axes)):
        g = R.generic((n if ax == 0 else 1) * (sz or 1), k + i)
        if ax == 0:
            out.append(g.reshape(n, sz) if sz else g)
        else:
            out.append(g if sz else float(g[0]))
    return out


def check_cmap(F, form, f, args, axes, n, rec, what):
    import casadi as cas

    got = f(*args)
    rows = []
    for i in range(n):
        el = [a if ax is None else a[i] for a, ax in zip(args, axes)]
        r = F[form](*el)
        if form in ("jac", "hess", "dense"):
            rows.append(np.array(cas.DM(r).nonzeros()))
        elif form == "several":
            rows.append([np.array(q).ravel() for q in r])
        else:
            rows.append(np.array(r).ravel())
    if form == "several":
        rec.check(len(got) == 3, "form", f"{what}: {len(got)} results")
        for k in range(3):
            rec.close(got[k], np.array([r[k] for r in rows]), "value", f"{what} result {k}", rtol=1e-13)
    else:
        rec.close(got, np.array(rows), "value", what, rtol=1e-13)


def run_cmap(unit, rec):
    import lumos.numpy as lnp

    n, w = unit["n"], unit["workers"]
    F = cas_functions()
    for form in F:
        nargs = 4 if form == "hess" else 3
        for axes in itertools.product((0, None), repeat=nargs):
            if all(a is None for a in axes):
                continue
            rec.at(dict(form=form, axes=axes, n=n, workers=w))
            sparse = form in ("jac", "hess", "dense")
            f = lnp.cmap(F[form], in_axes=list(axes), num_workers=w, sparse=sparse)
            for k in (1, 9):
                args = cas_args(form, n, axes, k)
                keep = [np.copy(a) for a in args]
                check_cmap(F, form, f, args, axes, n, rec, f"cmap {form} axes {axes} batch {n} workers {w}")
                rec.check(all(np.array_equal(a, b) for a, b in zip(args, keep)), "mutated", "the map changed its arguments")
            if all(a == 0 for a in axes):
                check_cmap(F, form, lnp.cmap(F[form], num_workers=w, sparse=sparse), args, axes, n, rec, f"cmap {form} default axes")
            rec.nontrivial((form, axes, n, w))
            rec.expect_raises(lambda: f(*args[:-1]), "arity", "cmap with too few arguments")


def run_batches(unit, rec):
    """One map called with changing batch sizes."""
    import lumos.numpy as lnp

    F, G = cas_functions(), cas_functions(1.7)
    for form in F:
        nargs = 4 if form == "hess" else 3
        axes = [0] * (nargs - 1) + [None]
        sparse = form in ("jac", "hess", "dense")
        for seq in itertools.product((1, 2, 5, 7), repeat=unit["depth"]):
            rec.at(dict(form=form, batches=seq, workers=unit["workers"]))
            f = lnp.cmap(F[form], in_axes=axes, num_workers=unit["workers"], sparse=sparse)
            other = lnp.cmap(G[form], in_axes=axes, num_workers=unit["workers"], sparse=sparse)
            kept = []
            for k, n in enumerate(seq):
                args = cas_args(form, n, axes, k)
                kept.append((f(*args), args, n))
                check_cmap(F, form, f, args, axes, n, rec, f"cmap {form} after batches {seq[:k]}")
                m = seq[-1 - k]
                check_cmap(G, form, other, cas_args(form, m, axes, k + 5), axes, m, rec, f"another cmap {form}")
            for r, args, n in kept:  # earlier results are not overwritten
                check_cmap(F, form, lambda *_: r, args, axes, n, rec, f"an earlier result of cmap {form}")
            rec.nontrivial((form, seq, unit["workers"]))
            rec.transition(len(seq))


# -- batched forms of the models ----------------------------------------------------------
def run_model(unit, rec):
    from mc import libmodels as L
    from mc import ocpcases as O
    from mc.models import MODELS

    mk, backend = unit["model"], unit["backend"]
    key = mk if backend != "custom" else mk + "C"
    cls = MODELS[key][0]
    outs = O.CON_OUTPUTS[mk][-1]
    variants = [{}]
    for i, (p, v) in enumerate(L.leaves(cls().get_recursive_params())):
        variants.append({p: np.asarray(v) * 1.3 + 0.1 * (i + 1) if np.shape(v) else float(v) * 1.3 + 0.1})
    m = cls()
    m.set_con_outputs(outs)
    m.make_model_algebra_cons(backend)
    a = m.model_algebra
    sizes = (1, 2, 5) if unit["tier"] == "quick" else (1, 2, 3, 5, 17)
    ni, nr = m.num_implicit_var, m.num_implicit_res
    trees = []
    for var in variants:
        t = cls().get_recursive_params()
        for p, v in var.items():
            t.set_param(p, v)
        trees.append(t)
    for seq in itertools.product(sizes, repeat=2):
        for vi, t in enumerate(trees):
            rec.at(dict(model=key, backend=backend, batches=seq, params=list(variants[vi])))
            for n in seq:
                S = R.generic(n * m.num_states, 2 + vi).reshape(n, -1)
                U = R.generic(n * m.num_inputs, 5 + vi).reshape(n, -1)
                me = R.generic(n, 9)
                r = m.batched_forward(S, U, me, t)
                one = cls(params=t)
                one.set_con_outputs(outs)
                want = [one.forward_with_arrays(S[i], U[i], me[i]) for i in range(n)]
                for f in ("states_dot", "outputs", "con_outputs", "residuals"):
                    w = np.array([getattr(x, f) for x in want])
                    if w.size:
                        rec.close(getattr(r, f), w, "batched_forward", f"batched_forward {f} of {key} on {backend}, batch {n}", rtol=1e-12)
                Z = R.generic(n * ni, 4 + vi).reshape(n, ni)
                lam = R.generic(n * nr, 6).reshape(n, nr)
                p = t.tree_ravel()[0] if backend == "casadi" else t
                con = np.asarray(a.mapped_constraints(Z, me, p))
                jac = np.asarray(a.mapped_jacobian(Z, me, p))
                hes = np.asarray(a.mapped_hessian(Z, lam, me, p))
                for i in range(n):
                    sl = slice(i, i + 1)
                    rec.close(con[i], np.asarray(a.mapped_constraints(Z[sl], me[sl], p))[0], "mapped", f"constraints {key} {backend} element {i} of {n}", rtol=1e-12)
                    rec.close(jac[i], np.asarray(a.mapped_jacobian(Z[sl], me[sl], p))[0], "mapped", f"jacobian {key} {backend} element {i} of {n}", rtol=1e-12)
                    rec.close(hes[i], np.asarray(a.mapped_hessian(Z[sl], lam[sl], me[sl], p))[0], "mapped", f"hessian {key} {backend} element {i} of {n}", rtol=1e-12)
                    cut = np.cumsum([m.num_states, m.num_inputs, m.num_states])
                    d = dict(zip(("states", "inputs", "states_dot", "con_outputs"), np.split(Z[i], cut)))
                    rec.close(con[i], one.implicit(mesh=me[i], **d), "mapped", f"constraints of {key} on {backend}, element {i}", rtol=1e-12)
                rec.transition()
            rec.nontrivial((key, backend, seq, vi))


def run_unit(unit, rec):
    dict(lmap=run_lmap, cmap=run_cmap, batches=run_batches, model=run_model)[unit["kind"]](unit, rec)
