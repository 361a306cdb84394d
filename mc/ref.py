"""Independent reference of a transcribed optimal control problem, written with naive loops over
casadi SX scalars. Nothing here uses lumos."""
import casadi as cas
import numpy as np
import scipy.special

from mc.models import CasNs


# ---- collocation ------------------------------------------------------------------------------
def radau_points(n):
    """n Radau points in (0, 1], including 1 (interior: roots of the Jacobi polynomial (1, 0))."""
    if n == 1:
        return np.array([1.0])
    inner, _ = scipy.special.roots_jacobi(n - 1, 1.0, 0.0)
    return np.append((np.sort(inner) + 1) / 2, 1.0)


def lagrange_eval(support, i, t):
    v = 1.0
    for j, s in enumerate(support):
        if j != i:
            v *= (t - s) / (support[i] - s)
    return v


def diff_matrix(support, points):
    """D[k, i] = derivative of the i-th Lagrange polynomial at points[k]."""
    D = np.zeros((len(points), len(support)))
    for k, t in enumerate(points):
        for i in range(len(support)):
            tot = 0.0
            for m in range(len(support)):
                if m == i:
                    continue
                v = 1.0 / (support[i] - support[m])
                for j in range(len(support)):
                    if j not in (i, m):
                        v *= (t - support[j]) / (support[i] - support[j])
                tot += v
            D[k, i] = tot
    return D


def int_matrix(support, points):
    """I[k, i] = integral of the i-th Lagrange polynomial from support[0] to points[k]."""
    gx, gw = np.polynomial.legendre.leggauss(len(support) + 2)
    out = np.zeros((len(points), len(support)))
    for k, t in enumerate(points):
        a, b = support[0], t
        for x, w in zip(gx, gw):
            tt = (b - a) / 2 * x + (a + b) / 2
            for i in range(len(support)):
                out[k, i] += w * (b - a) / 2 * lagrange_eval(support, i, tt)
    return out


def scheme_matrices(name, ns):
    """(interpolation points in [0, 1], A, B) with A x - B xdot T = 0 per interval."""
    if name == "ForwardEuler":
        return np.array([0.0, 1.0]), np.array([[-1.0, 1.0]]), np.array([[1.0, 0.0]])
    if name == "Trapezoidal":
        return np.array([0.0, 1.0]), np.array([[-1.0, 1.0]]), np.array([[0.5, 0.5]])
    c = radau_points(ns - 1)
    s = np.append(0.0, c)
    if name == "LGR":
        B = np.zeros((ns - 1, ns))
        for k in range(ns - 1):
            B[k, k + 1] = 1.0
        return s, diff_matrix(s, c), B
    if name == "LGRIntegral":
        A = np.zeros((ns - 1, ns))
        for k in range(ns - 1):
            A[k, 0], A[k, k + 1] = -1.0, 1.0
        return s, A, int_matrix(s, c)
    raise KeyError(name)


def stage_mesh(points, interp):
    """Normalised position of every stage."""
    mesh = [points[0]]
    for a, b in zip(points[:-1], points[1:]):
        for t in interp[1:]:
            mesh.append(a + t * (b - a))
    return np.array(mesh)


# ---- the problem --------------------------------------------------------------------------------
GROUPS = ("states", "inputs", "states_dot", "con_outputs")


class RefOCP:
    def __init__(self, names, math, params, points, scheme, ns, mesh_scale=None, cyclic=None,
                 condensed=False, scales=None, extra_objective=None):
        """names: dict states/inputs/con_outputs/residuals -> tuple. mesh_scale None = free mesh.
        cyclic: None or list of "group.name". scales: {(group, name): value}.
        extra_objective(x, var, stages) -> SX term, with var(group, name, stage)."""
        names = dict(names)
        names["states_dot"] = names["states"]  # positions only
        self.names = names
        interp, A, B = scheme_matrices(scheme, ns)
        NI = len(points) - 1
        N = NI * (len(interp) - 1) + 1
        ns = len(interp)
        self.N, self.NI, self.ns = N, NI, ns
        per = sum(len(names[g]) for g in GROUPS)
        off, o = {}, 0
        for g in GROUPS:
            off[g] = o
            o += len(names[g])
        self.n = N * per + (1 if mesh_scale is None else 0)
        self.off, self.per = off, per

        s = np.ones(self.n)
        scales = scales or {}
        for (g, nme), v in scales.items():
            if g == "global":
                s[N * per] = v
            else:
                for st in range(N):
                    s[self.index(g, nme, st)] = v
        self.s = s
        xs = cas.SX.sym("x", self.n)
        self.xs = xs
        z = [xs[i] * s[i] for i in range(self.n)]

        def var(g, j, st):
            return z[st * per + off[g] + j]

        scale = z[N * per] if mesh_scale is None else mesh_scale
        # the model is evaluated on the mesh; derivatives with respect to the mesh are excluded by
        # using time-invariant models whenever the mesh is free
        mesh = stage_mesh(points, interp)
        self.mesh = mesh
        defects, xdots = [], []
        sc = lambda g, n_: scales.get((g, n_), 1.0)  # noqa: E731
        stage_rows, stage_rows_red = [], []
        for st in range(N):
            x = {n_: var("states", j, st) for j, n_ in enumerate(names["states"])}
            u = {n_: var("inputs", j, st) for j, n_ in enumerate(names["inputs"])}
            f, y = math(CasNs, x, u, mesh[st] * (mesh_scale if mesh_scale is not None else scale), params)
            xdots.append([f[n_] for n_ in names["states"]])
            rows = [(f[n_] - var("states_dot", j, st)) / sc("states", n_) for j, n_ in enumerate(names["states"])]
            red = [(y[n_] - var("con_outputs", j, st)) / sc("con_outputs", n_) for j, n_ in enumerate(names["con_outputs"])]
            red += [y[n_] for n_ in names["residuals"]]
            stage_rows += rows + red
            stage_rows_red += red
        cont = []
        for i in range(NI):
            T = (points[i + 1] - points[i]) * scale
            for k in range(ns - 1):
                for j, n_ in enumerate(names["states"]):
                    e = 0
                    for m in range(ns):
                        st = i * (ns - 1) + m
                        xd = xdots[st][j] if condensed else var("states_dot", j, st)
                        e = e + A[k, m] * var("states", j, st) - B[k, m] * xd * T
                    cont.append(e / sc("states", n_))
        blocks = {}
        if condensed:
            if cyclic is not None:
                blocks["cyclic"] = None
            blocks["model_algebra"] = cont + stage_rows_red
        else:
            blocks["model_algebra"] = stage_rows
            blocks["continuity"] = cont
        if cyclic is not None:
            cyc = []
            for gn in cyclic:
                g, n_ = gn.split(".")
                j = names[g].index(n_)
                cyc.append(var(g, j, 0) - var(g, j, N - 1))
            blocks["cyclic"] = cyc
        if mesh_scale is None:
            obj = scale
        else:
            j = names["states"].index("time")
            obj = var("states", j, N - 1) - var("states", j, 0)
        if extra_objective is not None:
            obj = obj + extra_objective(lambda g, n_, st: var(g, names[g].index(n_), st), mesh, scale)
        self.blocks = {k: len(v) for k, v in blocks.items()}
        allc = []
        for v in blocks.values():
            allc += v
        c = cas.vertcat(*allc) if allc else cas.SX(0, 1)
        lam = cas.SX.sym("l", c.shape[0])
        of = cas.SX.sym("o")
        self.m = c.shape[0]
        obj = cas.SX(obj)
        self._c = cas.Function("c", [xs], [c])
        self._o = cas.Function("o", [xs], [obj])
        self._sym = (xs, lam, of, c, obj)
        self._j = self._h = self._g = None

    def index(self, g, name, st):
        if g == "global":
            return self.N * self.per
        return (st % self.N) * self.per + self.off[g] + self.names[g].index(name)

    def cons(self, x):
        return np.array(self._c(x)).ravel()

    def obj(self, x):
        return float(self._o(x))

    def jac(self, x):
        xs, lam, of, c, obj = self._sym
        if self._j is None:
            self._j = cas.Function("j", [xs], [cas.jacobian(c, xs)])
        return np.array(cas.DM(self._j(x)).full())

    def grad(self, x):
        xs, lam, of, c, obj = self._sym
        if self._g is None:
            self._g = cas.Function("g", [xs], [cas.densify(cas.gradient(obj, xs))])
        return np.array(self._g(x)).ravel()

    def hess(self, x, lam_v, of_v):
        xs, lam, of, c, obj = self._sym
        if self._h is None:
            L = of * obj + cas.dot(lam, c)
            self._h = cas.Function("h", [xs, lam, of], [cas.hessian(L, xs)[0]])
        return np.array(cas.DM(self._h(x, lam_v, of_v)).full())

    def split(self, c):
        out, i = {}, 0
        for k, n in self.blocks.items():
            out[k] = c[i:i + n]
            i += n
        return out


# ---- comparison with an implementation -------------------------------------------------------------
def generic(n, k=0):
    """Deterministic generic vector with entries in (-1.2, 1.2), no two alike."""
    i = np.arange(n)
    return 1.2 * np.sin(1.0 + 12.9898 * (i + 1) * (1 + 0.37 * k) + 78.233 * k)


def gen_point(ref, k=0):
    x = generic(ref.n, k) / ref.s
    if ref.n > ref.N * ref.per:
        x[-1] = (1.3 + 0.4 * k) / ref.s[-1]
    return x


def dense(vals, rows, cols, shape, rec, what):
    vals, rows, cols = (np.ravel(np.asarray(a)) for a in (vals, rows, cols))
    rec.check(len(vals) == len(rows) == len(cols), what + "-length",
              lambda: f"{what}: {len(vals)} values for structure of {len(rows)}/{len(cols)}")
    if len(rows):
        rec.check(rows.min() >= 0 and cols.min() >= 0 and rows.max() < shape[0] and cols.max() < shape[1],
                  what + "-range", lambda: f"{what}: structure entry outside {shape}")
    M = np.zeros(shape)
    np.add.at(M, (rows.astype(int), cols.astype(int)), vals.astype(float))
    return M


def compare_values(p, ref, x, rec, what="", rtol=1e-9, atol=1e-9):
    c = np.ravel(np.asarray(p.constraints(x)))
    rec.check(p.num_con == ref.m, what + "num_con", lambda: f"{what} num_con {p.num_con}, expected {ref.m}")
    want = ref.split(ref.cons(x))
    got = p.split_constraints(c)
    rec.check(set(got) == set(want), what + "blocks", lambda: f"{what} constraint blocks {set(got)}, expected {set(want)}")
    for b in want:
        rec.close(np.ravel(got[b]), want[b], what + b, f"{what} constraints of {b}", rtol, atol)
    rec.close(float(p.objective(x)), ref.obj(x), what + "objective", f"{what} objective", rtol, atol)


def perm(p, ref):
    """Position in ref's constraint vector of each of p's constraints (block order may differ)."""
    start, i = {}, 0
    for k, n in ref.blocks.items():
        start[k] = i
        i += n
    out = []
    for k, idx in p.split_constraints(np.arange(p.num_con)).items():
        out += [start[k] + j for j in range(len(idx))]
    return np.array(out, dtype=int)


def compare_first(p, ref, x, rec, what="", rtol=1e-8, atol=1e-9):
    pm = perm(p, ref)
    rec.close(np.ravel(p.gradient(x)), ref.grad(x), what + "gradient", f"{what} gradient", rtol, atol)
    r, c = p.jacobianstructure()
    J = dense(p.jacobian(x), r, c, (p.num_con, p.num_dec), rec, what + "jacobian")
    rec.close(J, ref.jac(x)[pm], what + "jacobian", f"{what} Jacobian", rtol, atol)


def compare_second(p, ref, x, lam, of, rec, what="", rtol=1e-8, atol=1e-8):
    """lam is given in ref's order."""
    pm = perm(p, ref)
    vals = p.hessian(x, lam[pm], of)
    r, c = p.hessianstructure()
    rec.check(bool(np.all(np.ravel(r) <= np.ravel(c))), what + "hessian-triangle", f"{what} Hessian structure below the diagonal")
    H = dense(vals, r, c, (p.num_dec, p.num_dec), rec, what + "hessian")
    rec.close(H, np.triu(ref.hess(x, lam, of)), what + "hessian", f"{what} Hessian", rtol, atol)
