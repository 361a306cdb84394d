"""C09: histories of adding/deleting constraint blocks and objectives against a reference list."""
import itertools

import numpy as np

from mc import stub

stub.install()

from mc import ref as R  # noqa: E402

CHECK = dict(
    id="C09",
    level="model_checking",
    technique="explicit-state exploration of all add/delete/evaluate histories of the real CompositeProblem in lockstep "
    "with an ordered-list reference, dense reference values per block",
    rule="all histories up to the depth bound over the alphabet (toggle each of 3-4 blocks and 3-4 objectives, refused adds "
    "and deletes, structure-first and value-first evaluations); every second block added under a name is another one of the "
    "same size; states are ordered lists of present blocks and objectives, "
    "a trace is one history replayed on a fresh real object",
    assumptions=["values of a block are requested only while at least one block of that kind exists"],
    note="Every history up to the bound is replayed on the real class; values, bounds, derivatives and structures are "
    "compared with sums of the reference blocks after the last operation.",
)
n = 4


class Blk:
    """Reference block: dense functions of x."""

    def __init__(self, m, con, jac, hes, structure, hstructure, kind="base"):
        self.m, self.con, self.jac, self.hes = m, con, jac, hes
        self.js, self.hs, self.kind = structure, hstructure, kind

    def make(self):
        from lumos.optimal_control.nlp import BaseConstraints, LinearConstraints

        jr = (lambda x: self.jac(x).ravel()) if self.js is None else (lambda x: self.jac(x)[self.js])
        if self.kind == "linear":
            return LinearConstraints(num_in=n, num_con=self.m, constraints=self.con, jacobian=jr, jacobian_structure=self.js)
        if self.hs is None:
            hr = lambda x, l: self.hes(x, l).ravel()  # noqa: E731
        else:
            r, c = self.hs
            cnt = np.zeros((n, n))
            np.add.at(cnt, (r, c), 1)
            hr = lambda x, l: (self.hes(x, l) / np.maximum(cnt, 1))[r, c]  # noqa: E731
        return BaseConstraints(num_in=n, num_con=self.m, constraints=self.con, jacobian=jr, hessian=hr,
                               jacobian_structure=self.js, hessian_structure=self.hs)


def sym(entries):
    H = np.zeros((n, n))
    for i, j, v in entries:
        H[i, j] += v
        if i != j:
            H[j, i] += v
    return H


M = np.array([[1.0, 0.0, -2.0, 0.0], [0.0, 3.0, 0.0, 0.5], [0.7, 0.0, 0.0, 0.0]])
BLOCKS = {
    "dense": Blk(2, lambda x: np.array([x[0] * x[1] * x[2], x[3] ** 3 + x[0]]),
                 lambda x: np.array([[x[1] * x[2], x[0] * x[2], x[0] * x[1], 0], [1, 0, 0, 3 * x[3] ** 2]]),
                 lambda x, l: sym([(0, 1, l[0] * x[2]), (0, 2, l[0] * x[1]), (1, 2, l[0] * x[0]), (3, 3, 6 * l[1] * x[3])]),
                 None, None),
    "linear": Blk(3, lambda x: M @ x, lambda x: M, lambda x, l: np.zeros((n, n)), np.nonzero(M), ([], []), "linear"),
    # full symmetric structure with a repeated diagonal entry and 2-d index arrays handled by ravel
    # (and a last constraint which depends on nothing)
    "sparse": Blk(2, lambda x: np.array([x[1] ** 2 * x[3], 0.5]), lambda x: np.array([[0, 2 * x[1] * x[3], 0, x[1] ** 2], [0.0] * n]),
                  lambda x, l: sym([(1, 1, 2 * l[0] * x[3]), (1, 3, 2 * l[0] * x[1])]),
                  (np.array([0, 0]), np.array([3, 1])),
                  (np.array([1, 3, 1, 1]), np.array([1, 1, 3, 1]))),
    "square": Blk(2, lambda x: np.array([x[2] ** 2, x[0] * x[3]]),
                  lambda x: np.array([[0, 0, 2 * x[2], 0], [x[3], 0, 0, x[0]]]),
                  lambda x, l: sym([(2, 2, 2 * l[0]), (0, 3, l[1])]),
                  (np.array([[0], [1], [1]]), np.array([[2], [0], [3]])),
                  (np.array([[2], [0]]), np.array([[2], [3]]))),
}
w = np.array([0.3, -1.1, 0.8, 2.0])


class Obj:
    def __init__(self, f, g, h, hs):
        self.f, self.g, self.h, self.hs = f, g, h, hs

    def make(self):
        from lumos.optimal_control.nlp import BaseObjective

        hr = (lambda x: self.h(x).ravel()) if self.hs is None else (lambda x: self.h(x)[self.hs])
        return BaseObjective(num_in=n, objective=self.f, gradient=self.g, hessian=hr, hessian_structure=self.hs)


OBJ = {
    "lin": Obj(lambda x: w @ x, lambda x: w.copy(), lambda x: np.zeros((n, n)),
               (np.array([], dtype=int), np.array([], dtype=int))),
    "full": Obj(lambda x: (w @ x) ** 2, lambda x: 2 * (w @ x) * w, lambda x: 2 * np.outer(w, w), None),
    "diag": Obj(lambda x: np.sum(x ** 3), lambda x: 3 * x ** 2, lambda x: np.diag(6 * x), (np.arange(n), np.arange(n))),
    "low": Obj(lambda x: x[0] * x[3] ** 2, lambda x: np.array([x[3] ** 2, 0, 0, 2 * x[0] * x[3]]),
               lambda x: sym([(0, 3, 2 * x[3]), (3, 3, 2 * x[0])]), (np.array([3, 0, 3]), np.array([0, 3, 3]))),
}
# the lower-triangle entry of "low" must be ignored, the upper one used


def mirrored(b):
    """The same block for the variables in reverse order: another structure with as many rows and entries."""
    hs = None if b.hs is None else tuple(n - 1 - np.asarray(i, int) for i in b.hs[::-1])
    if isinstance(b, Obj):
        return Obj(lambda x: b.f(x[::-1]), lambda x: b.g(x[::-1])[::-1], lambda x: b.h(x[::-1])[::-1, ::-1], hs)
    return Blk(b.m, lambda x: b.con(x[::-1]), lambda x: b.jac(x[::-1])[:, ::-1], lambda x, l: b.hes(x[::-1], l)[::-1, ::-1],
               None if b.js is None else (b.js[0], n - 1 - np.asarray(b.js[1])), hs, b.kind)


# what is added under a name for the first, second, ... time
BLOCK_VERSIONS = {k: (b, mirrored(b)) for k, b in BLOCKS.items()}
OBJ_VERSIONS = {k: (o, mirrored(o)) for k, o in OBJ.items()}


def alphabet(tier):
    b = ["dense", "linear", "sparse", "square"]
    o = ["lin", "full", "low"] + (["diag"] if tier == "thorough" else [])
    return [("tb", x) for x in b] + [("to", x) for x in o] + [("r",), ("ev", "structure"), ("ev", "values")]


def compare(p, bl, ob, ver, rec, order):
    blk = {k: BLOCK_VERSIONS[k][ver[k] % 2] for k in bl}
    obj = {k: OBJ_VERSIONS[k][ver[k] % 2] for k in ob}
    x = R.generic(n, 3)
    lam = R.generic(sum(blk[k].m for k in bl), 5)
    m = len(lam)
    rec.check(p.num_con == m and isinstance(p.num_con, int), "num_con", lambda: f"num_con {p.num_con!r}, expected {m}")
    parts, i = {}, 0
    for k in bl:
        parts[k] = lam[i:i + blk[k].m]
        i += blk[k].m
    if bl:
        got = p.split_constraints(lam)
        rec.check(list(got) == bl, "split-names", lambda: f"blocks {list(got)}, expected {bl}")
        for k in bl:
            rec.close(got[k], parts[k], "split", f"slice of {k}", 0, 0)
        rec.close(p.constraints(x), np.hstack([np.ravel(blk[k].con(x)) for k in bl]), "constraints", "constraints", 1e-13, 1e-13)
        vals = p.jacobian(x) if order == "values" else None
        r, c = p.jacobianstructure()
        vals = p.jacobian(x) if vals is None else vals
        rec.close(R.dense(vals, r, c, (m, n), rec, "jacobian"), np.vstack([blk[k].jac(x) for k in bl]), "jacobian", "Jacobian", 1e-13, 1e-13)
    if ob:
        rec.close(float(p.objective(x)), sum(obj[k].f(x) for k in ob), "objective", "objective", 1e-13, 1e-13)
        rec.close(p.gradient(x), sum(obj[k].g(x) for k in ob), "gradient", "gradient", 1e-13, 1e-13)
    if bl or ob:
        H = sum([blk[k].hes(x, parts[k]) for k in bl] + [0.7 * obj[k].h(x) for k in ob])
        vals = p.hessian(x, lam, 0.7) if order == "values" else None
        r, c = p.hessianstructure()
        vals = p.hessian(x, lam, 0.7) if vals is None else vals
        r, c = np.ravel(r), np.ravel(c)
        rec.check(bool(np.all(r <= c)), "hessian-triangle", "structure entry below the diagonal")
        rec.close(R.dense(vals, r.astype(int), c.astype(int), (n, n), rec, "hessian"), np.triu(H), "hessian", "Hessian", 1e-13, 1e-13)


def run_history(ops, rec):
    from lumos.optimal_control.nlp import CompositeProblem

    p = CompositeProblem(num_in=n)
    bl, ob = [], []
    ver = dict.fromkeys([*BLOCKS, *OBJ], 0)
    for op in ops:
        if op[0] == "tb":
            if op[1] in bl:
                p.delete_constraints(op[1])
                bl.remove(op[1])
                ver[op[1]] += 1
            else:
                p.add_constraints(op[1], BLOCK_VERSIONS[op[1]][ver[op[1]] % 2].make())
                bl.append(op[1])
        elif op[0] == "to":
            if op[1] in ob:
                p.delete_objective(op[1])
                ob.remove(op[1])
                ver[op[1]] += 1
            else:
                p.add_objective(op[1], OBJ_VERSIONS[op[1]][ver[op[1]] % 2].make())
                ob.append(op[1])
        elif op[0] == "r":
            for k, b in BLOCKS.items():
                if k in bl:
                    other = BLOCKS["dense" if k != "dense" else "linear"].make()
                    rec.expect_raises(lambda: p.add_constraints(k, other), "re-added", f"adding the existing block {k}")
                else:
                    rec.expect_raises(lambda: p.delete_constraints(k), "deleted-unknown", f"deleting the unknown block {k}")
            for k, o in OBJ.items():
                if k in ob:
                    rec.expect_raises(lambda: p.add_objective(k, OBJ["lin"].make()), "re-added", f"adding the existing objective {k}")
                else:
                    rec.expect_raises(lambda: p.delete_objective(k), "deleted-unknown", f"deleting the unknown objective {k}")
            from lumos.optimal_control.nlp import BaseConstraints

            for k in (n + 1, n - 1):
                wrong = BaseConstraints(num_in=k, num_con=1, constraints=lambda x: x[:1], jacobian=lambda x: np.ones(k),
                                        hessian=lambda x, l: np.zeros(k ** 2))
                rec.expect_raises(lambda: p.add_constraints("wrong", wrong), "wrong-size", "adding a block of another size")
        else:
            compare(p, bl, ob, ver, rec, op[1])
        rec.transition()
    compare(p, bl, ob, ver, rec, "values")
    compare(p, bl, ob, ver, rec, "structure")
    rec.state([[(k, ver[k] % 2) for k in bl], [(k, ver[k] % 2) for k in ob]])
    rec.trace()


def run_alone(rec):
    """Every block by itself, in every combination of scales, also as sparse matrices."""
    for name, versions in BLOCK_VERSIONS.items():
        for v, ref in enumerate(versions):
            for sx, sc, before in itertools.product((None, [2.0, 0.5, 3.0, 1.5]), (None, [4.0, 0.25, 7.0]), (True, False)):
                rec.at([name, v, sx, sc, before])
                b = ref.make()
                s = np.ones(n) if sx is None else np.array(sx)
                c = np.ones(ref.m) if sc is None else np.array(sc)[:ref.m]
                steps = [lambda: b.set_input_scales(s)] * (sx is not None) + [lambda: b.set_con_scales(c)] * (sc is not None)
                for f in steps if before else steps[::-1]:
                    f()
                x, lam = R.generic(n, 4), R.generic(ref.m, 9)
                rec.close(np.ravel(b.constraints(x)), ref.con(x * s) / c, "alone", "constraints", 1e-13, 1e-13)
                J, H = b.get_csc_jacobian(x), b.get_csc_hessian(x, lam)
                rec.check(J.shape == (ref.m, n) and H.shape == (n, n), "alone-shape", lambda: f"shapes {J.shape} {H.shape}")
                rec.close(J.toarray(), ref.jac(x * s) * s / c[:, None], "alone", "sparse Jacobian", 1e-13, 1e-13)
                want = np.zeros((n, n))
                if ref.kind == "linear":
                    pass
                elif ref.hs is None:
                    want = ref.hes(x * s, lam / c)
                else:
                    cnt = np.zeros((n, n))
                    np.add.at(cnt, tuple(map(np.ravel, ref.hs)), 1)
                    want = ref.hes(x * s, lam / c) * (cnt > 0)
                rec.close(H.toarray(), want * np.outer(s, s), "alone", "sparse Hessian", 1e-13, 1e-13)
                rec.transition()
    rec.trace()


def units(tier):
    ops = alphabet(tier)
    return [dict(alone=1)] + [dict(a=i, b=j, tier=tier) for i in range(len(ops)) for j in range(-1, len(ops))]


def run_unit(unit, rec):
    if "alone" in unit:
        return run_alone(rec)
    ops = alphabet(unit["tier"])
    depth = 6 if unit["tier"] == "thorough" else 5
    head = [ops[unit["a"]]] + ([ops[unit["b"]]] if unit["b"] >= 0 else [])
    for d in range(depth - 1 if unit["b"] >= 0 else 1):
        for rest in itertools.product(range(len(ops)), repeat=d):
            seq = head + [ops[i] for i in rest]
            if d and ops[rest[-1]][0] == "ev":
                continue  # every history ends in an evaluation anyway
            rec.at(seq)
            run_history(seq, rec)
            rec.outcome("histories")
    rec.sample(head)
