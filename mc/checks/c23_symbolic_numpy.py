"""C23: the symbolic array layer against numpy, call by call."""
import itertools

import numpy as np

CHECK = dict(
    id="C23",
    level="exploration",
    technique="exhaustive enumeration of calls (function x argument options x shapes x which arguments are symbolic x symbolic type) on the real "
    "layer, evaluated at all values of a grid and compared in value and shape with numpy; all short compositions of functions",
    rule="all entries of the call table x shapes x non-empty subsets of symbolic arguments x SX / MX / DM x all grid values (ties, signs, zeros); all "
    "compositions of two elementwise or reducing functions; a case is one evaluated call",
    assumptions=["a symbolic column stands for a one-dimensional array, as everywhere in the layer"],
    note="All calls of the table on all shapes, symbolic subsets and grid values.",
)
V = (-2.0, -0.5, 0.0, 1.0, 3.0)


def table():
    """name -> (argument kinds, call on the layer, call on numpy, domain).
    kinds: s scalar, v vector, m matrix, q square matrix, w vector of the same length, n matrix of the same shape, 3 vector of three."""
    T = []

    def add(name, kinds, f, g=None, dom=None, types=("SX", "MX", "DM"), num=True):
        T.append((name, kinds, f, g or f, dom, types, num))

    one = "sin cos tan arctan sinh cosh tanh exp sign fabs floor ceil abs degrees radians".split()
    for n in one:
        f = (lambda n: lambda L, x: getattr(L, n)(x))(n)
        for k in ("s", "v", "m"):
            add(n, k, f)
    for n, dom in (("sqrt", "pos"), ("log", "pos"), ("log10", "pos"), ("arcsin", "unit"), ("arccos", "unit")):
        f = (lambda n: lambda L, x: getattr(L, n)(x))(n)
        for k in ("s", "v"):
            add(n, k, f, dom=dom)
    for n, g in (("sind", lambda N, x: N.sin(x * np.pi / 180)), ("cosd", lambda N, x: N.cos(np.pi * x / 180)), ("tand", lambda N, x: N.tan(x * np.pi / 180))):
        f = (lambda n: lambda L, x: getattr(L, n)(x))(n)
        add(n, "s", f, g)
        add(n, "v", f, g)
    for n, g in (("arcsind", lambda N, x: N.arcsin(x) * 180 / np.pi), ("arccosd", lambda N, x: N.arccos(x) * 180 / np.pi)):
        add(n, "v", (lambda n: lambda L, x: getattr(L, n)(x))(n), g, dom="unit")
    two = [("minimum", "minimum"), ("maximum", "maximum"), ("add", "add"), ("subtract", "subtract"), ("multiply", "multiply"), ("arctan2", "arctan2"), ("fmin", "fmin"),
           ("fmax", "fmax")]
    for n, g in two:
        f = (lambda n: lambda L, x, y: getattr(L, n)(x, y))(n)
        for k in ("ss", "vw", "mn", "vs", "sv"):
            add(n, k, f)
    add("arctan2d", "vw", lambda L, y, x: L.arctan2d(y, x), lambda N, y, x: N.arctan2(y, x) * 180 / np.pi)
    for k in ("ss", "vw", "vs"):
        add("logical_and", k, lambda L, x, y: L.logical_and(x > 0, y > 0.5))
        add("logical_or", k, lambda L, x, y: L.logical_or(x > 0, y > 0.5))
        add("where", k, lambda L, x, y: L.where(x > 0, x * 2, y - 1))
        add("where-eq", k, lambda L, x, y: L.where(x >= y, x, y))
        add("comparisons", k, lambda L, x, y: (x < y) + 2 * (x <= y) + 4 * (x > y) + 8 * (x >= y), lambda N, x, y: (x < y) * 1 + 2 * (x <= y) + 4 * (x > y) + 8 * (x >= y))
    add("where3", "sss", lambda L, c, x, y: L.where(c > 0, x, y))
    add("where3", "vww", lambda L, c, x, y: L.where(c > 0, x, y))
    add("where3", "mnn", lambda L, c, x, y: L.where(c > 0, x, y))
    add("logical_not", "s", lambda L, x: L.logical_not(x > 0))
    add("logical_not", "v", lambda L, x: L.logical_not(x > 0))
    for k in ("s", "v", "m"):
        add("clip", k, lambda L, x: L.clip(x, -1.0, 0.75))
    add("clip-bounds", "sss", lambda L, x, lo, w: L.clip(x, lo, lo + w * w))
    for k in ("v", "m"):
        add("all", k, lambda L, x: L.all(x > -1), types=("SX",))
        add("any", k, lambda L, x: L.any(x > 1), types=("SX",))
        add("max", k, lambda L, x: L.max(x))
        add("min", k, lambda L, x: L.min(x))
    for n in ("sum", "mean"):
        f = (lambda n: lambda L, x: getattr(L, n)(x))(n)
        add(n, "v", f)
        add(n, "m", f)
        for ax in (0, 1):
            add(f"{n}-{ax}", "m", (lambda n, ax: lambda L, x: getattr(L, n)(x, axis=ax))(n, ax))
        add(f"{n}-0", "v", (lambda n: lambda L, x: getattr(L, n)(x, axis=0))(n))
    # building and cutting
    add("array", "sss", lambda L, a, b, c: L.array([a, b, c]))
    add("array2", "sss", lambda L, a, b, c: L.array([[a, b], [c, 1.5]]))
    add("array3", "ss", lambda L, a, b: L.array([[a, 0.0, b], [b, a, 1.0]]))
    add("array1", "s", lambda L, a: L.array([a]))
    add("concatenate", "vw", lambda L, x, y: L.concatenate((x, y)))
    add("concatenate3", "vws", lambda L, x, y, s: L.concatenate([x, y * s, x]))
    for ax in (0, 1):
        add(f"concatenate-{ax}", "mn", (lambda ax: lambda L, x, y: L.concatenate((x, y), axis=ax))(ax))
    for ax in (0, 1, -1, -2):
        add(f"stack{ax}", "vw", (lambda ax: lambda L, x, y: L.stack((x, y), axis=ax))(ax))
    add("hstack", "mn", lambda L, x, y: L.hstack([x, y]), types=("SX", "MX"), num=False)
    add("vstack", "mn", lambda L, x, y: L.vstack([x, y]), types=("SX", "MX"), num=False)
    add("column_stack", "vw", lambda L, x, y: L.column_stack([x, y]), types=("SX", "MX"), num="all")
    add("row_stack", "vw", lambda L, x, y: L.row_stack([x, y]), lambda N, x, y: N.stack([x, y]), types=("SX", "MX"), num="all")
    add("diag", "v", lambda L, x: L.diag(x))
    for ax in (0, 1):
        for sh in range(-7, 8):
            add(f"roll{ax}", "m", (lambda ax, sh: lambda L, x: L.roll(x, sh, axis=ax))(ax, sh))
    for sh in range(-7, 8):
        add("roll", "v", (lambda sh: lambda L, x: L.roll(x, sh))(sh))
        add("roll0", "v", (lambda sh: lambda L, x: L.roll(x, sh, axis=0))(sh))
    for n in range(4):
        add(f"diff{n}", "V", (lambda n: lambda L, x: L.diff(x, n=n))(n))
    add("trapz", "V", lambda L, x: L.trapz(x), lambda N, x: (x[1:] + x[:-1]) / 2)
    add("trapz-ends", "V", lambda L, x: L.trapz(x, modify_endpoints=True), trapz_ends)
    add("length", "v", lambda L, x: L.length(x), lambda N, x: len(x))
    # products
    add("inner", "vw", lambda L, x, y: L.inner(x, y) if hasattr(L, "inner") and L is np else L.linalg.inner(x, y), lambda N, x, y: N.inner(x, y))
    add("outer", "vw", lambda L, x, y: L.linalg.outer(x, y), lambda N, x, y: N.outer(x, y), num="x")
    add("dot", "vw", lambda L, x, y: L.dot(x, y))
    add("cross", "33", lambda L, x, y: L.cross(x, y))
    add("matmul", "qq", lambda L, x, y: x @ y)
    add("matvec", "qc", lambda L, x, y: x @ y)
    add("solve", "Qc", lambda L, A, b: L.linalg.solve(A, b), lambda N, A, b: N.linalg.solve(A, b), dom="regular")
    for o in (None, 1, 2, 3, np.inf):
        add(f"norm{o}", "v", (lambda o: lambda L, x: L.linalg.norm(x, ord=o))(o), (lambda o: lambda N, x: N.linalg.norm(x, ord=o))(o),
            types=("SX",) if o == np.inf else ("SX", "MX", "DM"))
        for ax in (0, 1) if o not in (np.inf,) else ():
            add(f"norm{o}-{ax}", "M", (lambda o, ax: lambda L, x: L.linalg.norm(x, ord=o, axis=ax))(o, ax), (lambda o, ax: lambda N, x: N.linalg.norm(x, ord=o, axis=ax))(o, ax))
    add("norm-matrix", "M", lambda L, x: L.linalg.norm(x), lambda N, x: N.linalg.norm(x))
    add("norm-fro", "M", lambda L, x: L.linalg.norm(x, ord="fro"), lambda N, x: N.linalg.norm(x, ord="fro"))
    add("rotation2", "s", lambda L, a: L.rotation_matrix_2D(a), lambda N, a: N.array([[N.cos(a), -N.sin(a)], [N.sin(a), N.cos(a)]]))
    add("rotation3", "s", lambda L, a: L.rotation_matrix_3D(a, np.array([1.0, -2.0, 0.5])), rot3)
    for n in (2, 3, 5):
        add(f"linspace{n}", "ss", (lambda n: lambda L, a, b: L.linspace(a, b, n))(n), (lambda n: lambda N, a, b: N.linspace(a, b, n))(n))
        add(f"cosspace{n}", "ss", (lambda n: lambda L, a, b: L.cosspace(a, b, n))(n),
            (lambda n: lambda N, a, b: (a + b) / 2 + (b - a) / 2 * N.cos(N.linspace(np.pi, 0, n)))(n))
        add(f"logspace{n}", "ss", (lambda n: lambda L, a, b: L.logspace(a, b, n))(n), (lambda n: lambda N, a, b: N.logspace(a, b, n))(n))
    for sh in [(r, c) for r in range(1, 7) for c in range(1, 7)]:
        add(f"reshape{sh}", "m", (lambda sh: lambda L, x: L.reshape(x, sh) if x.shape[0] * x.shape[1] == sh[0] * sh[1] else x + 0)(sh))
    add("reshape-flat", "m", lambda L, x: L.reshape(x, x.shape[0] * x.shape[1]))
    for k in ("m",):
        for ax in (0, 1, -1):
            for parts in (1, 2, 3):
                add(f"split{ax}-{parts}", k, (lambda ax, parts: lambda L, x: cut(L, x, parts, ax))(ax, parts), num=False)
            add(f"split{ax}-list", k, (lambda ax: lambda L, x: cut(L, x, list(range(1, x.shape[ax])), ax))(ax), num=False)
        add("hsplit", k, lambda L, x: glue(L.hsplit(x, x.shape[1])), num=False)
        add("vsplit", k, lambda L, x: glue(L.vsplit(x, x.shape[0])), num=False)
    xp, fp = np.array([-1.0, -0.25, 0.5, 2.0]), np.array([3.0, -1.0, 0.5, 7.0])
    for kw in (dict(), dict(left=-9.0), dict(right=11.0), dict(left=0.5, right=0.25)):
        f = (lambda kw: lambda L, x: L.interp(x, xp, fp, **kw))(kw)
        add(f"interp{kw}", "s", f, types=("MX",), num=False)
    return T


def cut(L, x, what, ax):
    if isinstance(what, int) and x.shape[ax] % what:
        return x + 0
    return glue(L.split(x, what, axis=ax))


def glue(parts):
    """The pieces one after another, and their sizes."""
    return list(parts)


def trapz_ends(N, x):
    r = (x[1:] + x[:-1]) / 2
    r[0] += x[0] * 0.5
    r[-1] += x[-1] * 0.5
    return r


def rot3(N, a):
    u = np.array([1.0, -2.0, 0.5])
    u = u / np.sqrt(np.sum(u * u))
    K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.cos(a) * np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * np.outer(u, u)


def shapes(kinds):
    """All assignments of shapes to the arguments."""
    k = kinds
    if "3" in k:
        return [[(3,)] * len(k)]
    if "q" in k or "Q" in k:
        return [[(n, n) if c in "qQ" else (n,) if c == "w" else (n, 1) for c in k] for n in (1, 2, 3)]
    if k[0] == "V":
        return [[(n,)] for n in (4, 5)]
    if k[0] == "M":
        return [[(r, c)] for r in (2, 3) for c in (2, 3)]
    if any(c in "mn" for c in k):
        return [[(r, c)] * len(k) for r in (1, 2, 3) for c in (1, 2, 3)]
    if any(c in "vw" for c in k):
        return [[(n,) if c in "vw" else () for c in k] for n in (1, 2, 3)]
    return [[()] * len(k)]


def values(shps, dom, quick):
    """Values for all arguments: all grid values for few entries, else all rotations of generic ones."""
    sizes = [int(np.prod(s)) for s in shps]
    total = sum(sizes)
    grid = {"pos": (0.01, 0.5, 1.0, 7.0), "unit": (-0.9, -0.3, 0.0, 0.5, 0.99)}.get(dom, V)
    if total <= (3 if quick else 5):
        rows = itertools.product(grid, repeat=total)
    else:
        reps = (40 if quick else 300)
        rows = ([grid[(i * i + r * (i + 1) + r // 5) % len(grid)] + (0.1 * i if r % 3 == 0 and dom is None else 0.0) for i in range(total)] for r in range(reps))
    for row in rows:
        out, i = [], 0
        for s, n in zip(shps, sizes):
            a = np.array(row[i:i + n], float).reshape(s)
            i += n
            if dom == "regular" and len(s) == 2 and s[0] == s[1]:
                a = a + 9 * np.eye(s[0])
            out.append(a if s else float(a))
        yield out


def sym_shape(s):
    return (1, 1) if s == () else (s[0], 1) if len(s) == 1 else s


def flat(r):
    """Result -> list of (shape, values); numpy or casadi."""
    rs = r if isinstance(r, (list, tuple)) else [r]
    out = []
    for a in rs:
        a = np.asarray(a, float) if not hasattr(a, "full") else a.full()
        out.append((sym_shape(a.shape), a.reshape(sym_shape(a.shape))))
    return out


def units(tier):
    n = len(table())
    k = 32
    out = [dict(kind="calls", part=i, parts=k, quick=tier == "quick") for i in range(min(k, n))]
    return out + [dict(kind="compose", quick=tier == "quick"), dict(kind="creation"), dict(kind="stencils"), dict(kind="refused")]


def run_unit(unit, rec):
    dict(calls=run_calls, compose=run_compose, creation=run_creation, stencils=run_stencils, refused=run_refused)[unit["kind"]](unit, rec)


def run_calls(unit, rec):
    import casadi as cas
    import lumos.numpy.casadi_numpy as cnp

    for i, (name, kinds, f, g, dom, types, num) in enumerate(table()):
        if i % unit["parts"] != unit["part"]:
            continue
        for shps in shapes(kinds):
            vals = list(values(shps, dom, unit["quick"]))
            masks = [m for m in itertools.product((True, False), repeat=len(kinds)) if any(m) and (num != "all" or all(m)) and (num != "x" or m[0])]
            for ty, mask in itertools.product(types, masks):
                if ty == "DM" and not all(mask):
                    continue
                rec.at(dict(function=name, shapes=shps, symbolic=mask, type=ty))
                if ty == "DM":
                    for vs in vals[:40]:
                        rec.at(dict(function=name, type=ty, values=[np.asarray(v).tolist() for v in vs]))
                        compare(flat(f(cnp, *[cas.DM(v) for v in vs])), flat(g(np, *vs)), rec, name)
                    continue
                S = cas.MX if ty == "MX" else cas.SX
                numeric = [k for k, m in enumerate(mask) if not m]
                syms = [S.sym(f"a{k}", *sym_shape(s)) for k, (s, m) in enumerate(zip(shps, mask)) if m]
                done = {}
                for vs in vals:
                    rec.at(dict(function=name, shapes=shps, symbolic=mask, type=ty, values=[np.asarray(v).tolist() for v in vs]))
                    key = str([np.asarray(vs[k]).tolist() for k in numeric])
                    if key not in done:
                        if len(done) >= 25 and unit["quick"]:
                            continue
                        it = iter(syms)
                        args = [next(it) if m else vs[k] for k, m in enumerate(mask)]
                        r = f(cnp, *args)
                        done[key] = cas.Function("f", syms, list(r) if isinstance(r, (list, tuple)) else [r])
                    got = done[key].call([cas.DM(v) for k, v in enumerate(vs) if mask[k]])
                    compare(flat(got), flat(g(np, *vs)), rec, name)
                    rec.outcome("symbolic calls")
                rec.nontrivial((name, str(shps), ty, mask))
            # all-numeric calls
            if num is True and "array" not in name and name not in ("max", "min") and not name.startswith("rot"):
                for vs in vals[:25]:
                    rec.at(dict(function=name, numeric=[np.asarray(v).tolist() for v in vs]))
                    compare(flat(f(cnp, *[np.array(v) if np.ndim(v) else v for v in vs])), flat(g(np, *vs)), rec, name + " (numeric)")


def compare(got, want, rec, name):
    rec.check(len(got) == len(want), name, lambda: f"{name}: {len(got)} results, numpy gives {len(want)}")
    for (s, a), (t, b) in zip(got, want):
        rec.check(s == t, name, lambda: f"{name}: shape {s}, numpy gives {t}")
        rec.close(a, b, name, f"{name}", rtol=1e-10, atol=1e-11)


def run_compose(unit, rec):
    """f(g(x)) and f(x, g(y)) for all pairs."""
    import casadi as cas
    import lumos.numpy.casadi_numpy as cnp

    T = [t for t in table() if t[4] is None and "SX" in t[5] and t[1] in ("v", "vw", "vs", "V") and t[6] != "all" and not t[0].startswith(("roll", "length"))]
    x, y = cas.SX.sym("x", 4), cas.SX.sym("y", 4)
    # no zeros: the sign of a zero decides arctan2, and a symbolic product may lose it
    vals = [[a + 0.013, b + 0.029] for a, b in values([(4,), (4,)], None, True)]
    seen = set()
    T = [t for t in T if not ((t[0], t[1]) in seen or seen.add((t[0], t[1])))]

    def call(t, L, h, a, b):
        fn = t[3] if L is np else t[2]
        if t[1] in ("v", "V"):
            return fn(L, a)
        return fn(L, a, b[0] if t[1] == "vs" else b)

    for t1, t2 in itertools.product(T, T):
        rec.at(dict(inner=t1[0] + t1[1], outer=t2[0] + t2[1]))
        for numeric_y in (False, True):
            yy = vals[1][1] if numeric_y else y
            r = call(t1, cnp, None, x * 0.75, yy)
            w = np.asarray(call(t1, np, None, vals[0][0] * 0.75, vals[0][1]))
            if w.shape != (4,):
                break
            r2 = call(t2, cnp, None, r, yy)
            F = cas.Function("f", [x, y], [r2])
            for vx, vy in vals[:4 if unit["quick"] else 12]:
                b = vals[1][1] if numeric_y else vy
                want = call(t2, np, None, np.asarray(call(t1, np, None, vx * 0.75, b), float), b)
                if not np.all(np.isfinite(want)) or np.max(np.abs(want)) > 1e12:
                    continue
                rec.at(dict(inner=t1[0] + t1[1], outer=t2[0] + t2[1], x=vx.tolist(), y=np.asarray(b).tolist(), numeric_y=numeric_y))
                got = flat(F(vx, vy))
                rec.close(got[0][1].ravel(), np.ravel(want).astype(float), "compose", f"{t2[0]} of {t1[0]}", rtol=1e-8, atol=1e-8)
                rec.outcome("compositions")


def run_creation(unit, rec):
    import casadi as cas
    import lumos.numpy.casadi_numpy as cnp

    for r in range(1, 5):
        for n, want in (("zeros", np.zeros(r)), ("ones", np.ones(r)), ("eye", np.eye(r))):
            rec.at((n, r))
            compare(flat(cas.DM(getattr(cnp, n)(r))), flat(want), rec, n)
        x = cas.SX.sym("x", r, 2)
        rec.check(cnp.zeros_like(x).shape == (r, 2), "zeros_like", "shape of zeros_like")
        for thing, want in (([1, 2, 3], False), (x, True), ([1, x], True), ((1, [2, x]), True), ([[1], [2]], False), (cas.DM(1), True), (np.ones(2), False), (3.0, False)):
            rec.at(("is_casadi_type", str(thing)))
            from lumos.numpy.casadi_numpy.determine_type import is_casadi_type

            rec.check(is_casadi_type(thing) == want, "is_casadi_type", f"is_casadi_type({thing})")


def run_stencils(unit, rec):
    """Finite difference weights differentiate polynomials exactly."""
    import lumos.numpy.casadi_numpy as cnp

    for n in range(2, 6):
        for pts in itertools.combinations((-2.0, -1.0, -0.5, 0.0, 1.0, 1.5, 3.0), n):
            for x0 in (0.0, 0.3, -1.0):
                for d in range(1, n):
                    rec.at(dict(points=pts, x0=x0, derivative=d))
                    c = np.asarray(cnp.finite_difference_coefficients(np.array(pts), x0=x0, derivative_degree=d), float)
                    for p in range(n):
                        want = np.prod([p - i for i in range(d)]) * x0 ** (p - d) if p >= d else 0.0
                        rec.close(c @ np.array(pts) ** p, float(want), "stencil", f"derivative {d} of x^{p} at {x0}", rtol=1e-7, atol=1e-7)
                    rec.outcome("stencils")


def run_refused(unit, rec):
    """Calls outside the layer's scope are refused rather than answered wrongly."""
    import casadi as cas
    import lumos.numpy.casadi_numpy as cnp

    v, m = cas.SX.sym("v", 3), cas.SX.sym("m", 2, 3)
    calls = [("sum axis 2", lambda: cnp.sum(m, axis=2)), ("mean axis 2", lambda: cnp.mean(m, axis=2)), ("sum axis -1", lambda: cnp.sum(m, axis=-1)),
             ("concatenate axis 2", lambda: cnp.concatenate((m, m), axis=2)), ("stack matrices", lambda: cnp.stack((m, m))), ("stack axis 2", lambda: cnp.stack((v, v), axis=2)),
             ("column_stack matrices", lambda: cnp.column_stack([m, m])), ("row_stack matrices", lambda: cnp.row_stack([m, m])), ("uneven split", lambda: cnp.split(m, 2, axis=1)),
             ("dstack", lambda: cnp.dstack((v, v))), ("diag k", lambda: cnp.diag(v, k=1)), ("diag of a matrix", lambda: cnp.diag(m)), ("roll axis 2", lambda: cnp.roll(m, 1, axis=2)),
             ("diff axis 0", lambda: cnp.diff(m, axis=0)), ("norm axis 2", lambda: cnp.linalg.norm(m, axis=2)), ("cross axis 2", lambda: cnp.cross(v, v, axis=2)),
             ("different lengths", lambda: cnp.concatenate((m, cas.SX.sym("z", 1, 2)), axis=0)), ("dot of different lengths", lambda: cnp.dot(v, cas.SX.sym("z", 2))),
             ("interp period", lambda: cnp.interp(cas.MX.sym("x"), np.array([0.0, 1.0]), np.array([0.0, 1.0]), period=1.0)),
             ("reshape to another size", lambda: cnp.reshape(m, (2, 2))), ("geomspace of negatives", lambda: cnp.geomspace(cas.DM(-1.0), cas.DM(2.0), 3))]
    for name, c in calls:
        rec.at(name)
        rec.expect_raises(c, "refused", name)
    # geometric spacing with symbolic-typed numbers
    for a, b, n in itertools.product((0.5, 1.0, 3.0), (0.25, 2.0, 9.0), (2, 3, 6)):
        rec.at(("geomspace", a, b, n))
        compare(flat(cnp.geomspace(cas.DM(a), cas.DM(b), n)), flat(np.geomspace(a, b, n)), rec, "geomspace")
        compare(flat(cnp.geomspace(a, b, n)), flat(np.geomspace(a, b, n)), rec, "geomspace")
