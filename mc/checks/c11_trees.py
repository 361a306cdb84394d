"""C11: parameter and configuration trees through all their representations."""
import copy
import itertools

import numpy as np

from mc import ref as R

CHECK = dict(
    id="C11",
    level="exploration",
    technique="exhaustive enumeration of all trees within a bounded grammar and of all update sequences up to a depth, "
    "against plain nested dictionaries",
    rule="all trees of the grammar (ordered leaf shapes per node x child structures up to depth 3), every conversion; all "
    "update sequences up to the depth bound over a family of trees derived from each other; each tree is a distinct case",
    assumptions=["values are scalars or arrays of at most two dimensions, which is what the layer supports"],
    note="All trees and sequences within the bounds; expected values come from nested dictionaries handled by the harness.",
)
SHAPES = [None, "int", (0,), (1,), (3,), (1, 1), (2, 3), (3, 2), (1, 4)]


def leaf(shape, k):
    if shape is None:
        return float(R.generic(1, k)[0])
    if shape == "int":
        return 3 + k
    return R.generic(int(np.prod(shape)), k).reshape(shape)


def node(shapes, k, children=None):
    names = ["z", "a", "m"]  # not in alphabetical order
    return dict(data={n: leaf(s, k + i) for i, (n, s) in enumerate(zip(names, shapes))}, children=children or {})


def child_sets(tier):
    some = [None, (1,), (3,), (2, 3), (0,)]
    out = [{}]
    for s in some:
        out.append({"sub": node([s], 10)})
    out.append({"sub": node([], 10)})
    pairs = itertools.product(some if tier == "thorough" else [None, (2, 3), (0,)], repeat=2)
    for a, b in pairs:
        out.append({"q": node([a], 10), "b": node([b, None], 13)})
        out.append({"sub": node([a], 10, {"z": node([b], 15)})})
    out.append({"sub": node([], 10, {"a": node([(3, 2), None], 15, {"deep": node([(2, 3)], 18)})}), "a": node([None], 20)})
    return out


def root_sets(tier):
    out = [()]
    out += [(s,) for s in SHAPES]
    out += list(itertools.product(SHAPES, repeat=2))
    if tier == "thorough":
        out += list(itertools.product(SHAPES, repeat=3))
    return out


def units(tier):
    roots = root_sets(tier)
    n = 32
    out = [dict(kind="trees", tier=tier, lo=i, step=n) for i in range(n)]
    out += [dict(kind="updates", depth=4 if tier == "thorough" else 3, first=i) for i in range(len(OPS))]
    out += [dict(kind="models"), dict(kind="config", tier=tier)]
    assert roots
    return out


def flat_paths(d, prefix=""):
    out = [(prefix + n, v) for n, v in d["data"].items()]
    for n, c in d["children"].items():
        out += flat_paths(c, prefix + n + ".")
    return out


def same(a, b):
    return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a, float), np.asarray(b, float))


def same_dict(a, b):
    """Nested dictionary equality including the order of names."""
    return (
        list(a["data"]) == list(b["data"]) and list(a["children"]) == list(b["children"])
        and all(same(a["data"][n], b["data"][n]) for n in a["data"])
        and all(same_dict(a["children"][n], b["children"][n]) for n in a["children"])
    )


def check_tree(d, rec):
    import casadi as cas
    import jax

    from lumos.models.tree_utils import ParameterTree

    def build(e):
        return ParameterTree(data=dict(e["data"]), children={n: build(c) for n, c in e["children"].items()})

    paths = flat_paths(d)
    t = build(d)
    rec.check(same_dict(t.to_dict(), d), "to_dict", "to_dict differs")
    t2 = ParameterTree.from_dict(d)
    rec.check(same_dict(t2.to_dict(), d), "from_dict", "from_dict differs")
    flat, tdef = t.to_flat_dict()
    rec.check(list(flat) == [p for p, _ in paths], "flat-keys", lambda: f"{list(flat)} expected {[p for p, _ in paths]}")
    rec.check(all(same(flat[p], v) for p, v in paths), "flat-values", "values of the flat dictionary")
    rec.check(same_dict(ParameterTree.from_flat_dict(tdef, flat).to_dict(), d), "from_flat", "flat dictionary round trip")
    other = {p: leaf(None if np.shape(v) == () else np.shape(v), 50 + i) for i, (p, v) in enumerate(paths)}
    got = dict(flat_paths(ParameterTree.from_flat_dict(tdef, other).to_dict()))
    rec.check(all(same(got[p], other[p]) for p in other), "from_flat", "rebuilding with other values")
    # jax
    ch, aux = jax.tree_util.tree_flatten(t)
    rec.check(len(ch) == len(paths) and all(same(a, v) for a, (_, v) in zip(ch, paths)), "jax-flatten", "pytree leaves")
    rec.check(same_dict(jax.tree_util.tree_unflatten(aux, ch).to_dict(), d), "jax-unflatten", "pytree round trip")
    doubled = jax.tree_util.tree_map(lambda v: v * 2, t)
    rec.check(isinstance(doubled, ParameterTree), "jax-map", "type of a mapped tree")
    rec.check(all(same(a, np.asarray(v) * 2) for (_, a), (_, v) in zip(flat_paths(doubled.to_dict()), paths)), "jax-map", "mapped tree")
    # flat vector
    vec, unravel = t.tree_ravel()
    want = np.concatenate([np.ravel(v) for _, v in paths]) if paths else np.zeros(0)
    rec.close(np.ravel(vec), want.astype(float), "ravel", "flat vector", 0, 0)
    rec.check(same_dict(unravel(np.asarray(vec, float)).to_dict(), d), "unravel", "flat vector round trip")
    vals = R.generic(len(want), 77)
    back = flat_paths(unravel(vals).to_dict())
    i = 0
    for (p, v), (q, b) in zip(paths, back):
        m = int(np.size(v))
        rec.check(p == q and np.shape(b) == np.shape(v), "unravel-shape", lambda: f"{p}: shape {np.shape(b)}, expected {np.shape(v)}")
        rec.check(np.array_equal(np.ravel(b), vals[i:i + m]), "unravel-order", lambda: f"{p}: values out of order")
        i += m
    rec.close(np.ravel(unravel(vals).tree_ravel()[0]), vals, "ravel-unravel", "vector through a tree and back", 0, 0)
    # symbolic
    if paths:
        for T in (cas.SX, cas.MX):
            s = T.sym("s", len(want))
            st = unravel(s)
            back = flat_paths_tree(st)
            rec.check([p for p, _ in back] == [p for p, _ in paths], "symbolic-names", "names of a symbolic tree")
            f = cas.Function("f", [s], [x for _, x in back] + [st.tree_ravel()[0]])
            out = f(vals)
            out = [out] if not isinstance(out, (tuple, list)) else list(out)
            i = 0
            for (p, v), o in zip(paths, out):
                m = int(np.size(v))
                w = vals[i:i + m].reshape(np.shape(v) if np.ndim(v) == 2 else (m, 1))
                o = np.array(cas.DM(o).full())
                if m:
                    rec.close(o, w, "symbolic", f"{p} through a {T.__name__} function", 0, 0)
                i += m
            rec.close(np.array(cas.DM(out[-1]).full()).ravel(), vals, "symbolic-ravel", f"flat vector of a {T.__name__} tree", 0, 0)
        s = unravel(cas.DM(vals))
        i = 0
        for (p, v), (q, o) in zip(paths, flat_paths_tree(s)):
            m = int(np.size(v))
            w = vals[i:i + m].reshape(np.shape(v) if np.ndim(v) == 2 else (m, 1))
            rec.check(p == q, "numeric-names", "names of a tree of casadi numbers")
            if m:
                rec.close(np.array(cas.DM(o).full()), w, "numeric", f"{p} from casadi numbers", 0, 0)
            i += m
        rec.close(np.array(cas.DM(s.tree_ravel()[0]).full()).ravel(), vals, "numeric-ravel", "flat vector of a tree of casadi numbers", 0, 0)
    # by path
    for p, v in paths:
        rec.check(same(t.get_param(p), v), "get_param", f"get_param({p})")
        for de in DELIMITERS:
            q = p.replace(".", de)
            rec.check(same(t.get_param(q, de), v), "delimiter", f"get_param({q!r}, {de!r})")
    for p, v in paths:
        c = ParameterTree.from_dict(t.to_dict())
        new = leaf(None if np.shape(v) == () else np.shape(v), 90)
        c.set_param(p, new)
        for de in DELIMITERS:
            c2 = ParameterTree.from_dict(t.to_dict())
            c2.set_param(p.replace(".", de), new, delimiter=de)
            rec.check(same_dict(c2.to_dict(), c.to_dict()), "delimiter", f"set_param({p}) with {de!r}")
        for q, w in flat_paths(c.to_dict()):
            rec.check(same(w, new if q == p else dict(paths)[q]), "set_param", f"{q} after set_param({p})")
        rec.check(same_dict(t.to_dict(), d), "copy", f"original changed by set_param({p}) on its copy")
        rec.expect_raises(lambda: t.get_param(p + "_"), "unknown", f"get_param({p}_)", (KeyError,))
        rec.expect_raises(lambda: t.get_param("nope." + p), "unknown", f"get_param(nope.{p})", (KeyError,))
        rec.expect_raises(lambda: t.set_param("nope." + p, 1.0), "unknown", f"set_param(nope.{p})", (KeyError,))
    rec.check(same_dict(t.to_dict(), d), "unchanged", "tree changed by reading and refused updates")
    # values handed out are copies
    for form in (lambda: t.to_dict(), lambda: dict(data=t.to_flat_dict()[0], children={})):
        for p, v in flat_paths(form()):
            if isinstance(v, np.ndarray) and v.size:
                v += 1.0
    rec.check(same_dict(t.to_dict(), d), "alias", "tree changed through a dictionary it handed out")
    # values taken in are copies
    src = copy.deepcopy(d)
    flat, tdef = t.to_flat_dict()
    made = [ParameterTree.from_dict(src), ParameterTree.from_flat_dict(tdef, flat), ParameterTree.from_flat_dict(tdef, flat)]
    for p, v in flat_paths(src):
        if isinstance(v, np.ndarray) and v.size:
            v += 1.0
            flat[p] += 1.0
            made[2].get_param(p)[...] = 3.0
            rec.check(same(made[0].get_param(p), t.get_param(p)), "alias", "tree changed through the dictionary it was made from")
            rec.check(same(made[1].get_param(p), t.get_param(p)), "alias", "tree changed through its flat dictionary or another tree")


DELIMITERS = ("/", "::")


def flat_paths_tree(t, prefix=""):
    """(path, symbolic leaf) in order; to_dict would deep copy symbols, so read by path."""
    flat, _ = t.to_flat_dict()
    return list((prefix + k, t.get_param(k)) for k in flat)


# ---- update sequences over derived trees ---------------------------------------------------------
BASE = dict(data={"x": 1.0, "k": R.generic(6, 1).reshape(2, 3)},
            children={"s": dict(data={"y": R.generic(3, 2)}, children={"u": dict(data={"w": 2.0}, children={})})})
OPS = [("set", w, p) for w in (0, 1, 2) for p in ("x", "s.y", "s.u.w")] + [("copy", 0, 1), ("copy", 1, 2), ("replace", 0, 1), ("flat", 0, 2)]


def run_updates(seq, rec):
    """Three trees: 0 base, 1 made by from_dict(to_dict), 2 made through the flat vector."""
    import copy

    from lumos.models.tree_utils import ParameterTree

    T = [ParameterTree.from_dict(BASE)]
    T.append(ParameterTree.from_dict(T[0].to_dict()))
    v, un = T[0].tree_ravel()
    T.append(un(v))
    D = [copy.deepcopy(BASE) for _ in range(3)]

    def put(d, path, val):
        *h, l = path.split(".")
        for n in h:
            d = d["children"][n]
        d["data"][l] = val

    for i, op in enumerate(seq):
        if op[0] == "set":
            val = R.generic(3, i + 5) if op[2] == "s.y" else 10.0 + i
            T[op[1]].set_param(op[2], val)
            put(D[op[1]], op[2], val)
        elif op[0] == "copy":
            T[op[2]] = ParameterTree.from_dict(T[op[1]].to_dict())
            D[op[2]] = copy.deepcopy(D[op[1]])
        elif op[0] == "flat":
            f, td = T[op[1]].to_flat_dict()
            T[op[2]] = ParameterTree.from_flat_dict(td, f)
            D[op[2]] = copy.deepcopy(D[op[1]])
        else:
            sub = ParameterTree.from_dict(dict(data={"y": 5.0 + i}, children={"u": dict(data={"w": 6.0}, children={})}))
            T[op[1]].replace_subtree("s", sub)
            D[op[1]]["children"]["s"] = dict(data={"y": 5.0 + i}, children={"u": dict(data={"w": 6.0}, children={})})
            rec.expect_raises(lambda: T[op[1]].replace_subtree("nope", sub), "replace", "replacing an unknown subtree", (KeyError,))
            rec.expect_raises(lambda: T[op[1]].replace_subtree("s", {"y": 1.0}), "replace", "replacing by something else", (TypeError,))
        for j in range(3):
            rec.check(same_dict(T[j].to_dict(), D[j]), "interference", lambda: f"tree {j} after {op}")
        rec.transition()


def check_models(rec):
    """Parameter trees given to and taken from composite models."""
    from lumos.models.tree_utils import ParameterTree
    from mc.models import TinyC

    paths = ["m", "left.k", "left.g", "right.k", "right.g"]
    for i, path in enumerate(paths):
        rec.at(dict(models=path))
        m = TinyC()
        before = m.get_recursive_params().to_dict()
        taken = m.get_recursive_params()
        new = np.array([0.4, 0.7]) if path.endswith("g") else 3.3
        taken.set_param(path, new)
        rec.check(same_dict(m.get_recursive_params().to_dict(), before), "model-alias", f"model changed through its tree ({path})")
        m.set_recursive_params(taken)
        for q in paths:
            rec.check(same(m.get_recursive_params().get_param(q), new if q == path else dict(flat_paths(before))[q]),
                      "model-set", f"{q} after setting {path}")
        taken.set_param(path, 2 * np.asarray(new))
        rec.check(same(m.get_recursive_params().get_param(path), new), "model-alias", f"model changed through the tree it was given ({path})")
        m2 = TinyC(params=m.get_recursive_params())
        rec.check(same_dict(m2.get_recursive_params().to_dict(), m.get_recursive_params().to_dict()), "model-build", "built from a tree")
        broken = ParameterTree(data={"m": 1.0}, children={"left": ParameterTree(data={"k": 1.0, "g": np.zeros(2)})})
        rec.expect_raises(lambda: TinyC(params=broken), "malformed", "a tree without the subtree of a submodel", (KeyError,))
        rec.nontrivial(["model", path])
    # a model reads its own entries only
    sub = TinyC().get_submodel("left")
    rec.check(set(n for n, _ in flat_paths(sub.get_recursive_params().to_dict())) == {"k", "g"}, "model-own", "parameters of a submodel")


def check_config(rec, tier):
    from lumos.models.tree_utils import ConfigTree

    def build(e):
        return ConfigTree(e[0], {n: build(c) for n, c in e[1].items()})

    def as_dict(e):
        return dict(data=e[0], children={n: as_dict(c) for n, c in e[1].items()})

    def all_paths(e, prefix=""):
        out = [(prefix, e[0])]
        for n, c in e[1].items():
            out += all_paths(c, (prefix + "." if prefix else "") + n)
        return out

    types = ["A", "B"]
    subs = [("A", {}), ("B", {}), ("A", {"x": ("B", {})}), ("B", {"x": ("A", {"y": ("B", {})}), "a": ("A", {})})]
    for r, (i, s1), (j, s2) in itertools.product(types, enumerate(subs), enumerate(subs)):
        e = (r, {"q": s1, "b": s2})
        rec.at(dict(config=[r, i, j]))
        t = build(e)
        rec.check(t.to_dict() == as_dict(e), "config-dict", "to_dict of a configuration tree")
        rec.check(ConfigTree.from_dict(t.to_dict()).to_dict() == as_dict(e), "config-dict", "configuration round trip")
        flat, td = t.to_flat_dict()
        rec.check(flat == dict(all_paths(e)) and list(flat) == [p for p, _ in all_paths(e)], "config-flat", lambda: f"flat {flat}")
        rec.check(ConfigTree.from_flat_dict(td, flat).to_dict() == as_dict(e), "config-flat", "flat configuration round trip")
        for p, _ in all_paths(e)[1:]:
            c = ConfigTree.from_dict(t.to_dict())
            *up, last = p.split(".")
            parent = c
            for name in up:
                parent = parent.get_child(name)
            old = parent.get_child(last)
            other = ConfigTree("O", {"o": old})
            c.replace_subtree(p, ConfigTree("N", {"n": ConfigTree("M")}))
            rec.check(other.to_dict()["children"]["o"] == old.to_dict() and old.data in types, "config-replace",
                      f"replacing {p} changed another tree that holds the replaced subtree")
            want = as_dict(e)
            w, *tail = want, *p.split(".")
            for n in tail[:-1]:
                w = w["children"][n]
            w["children"][tail[-1]] = dict(data="N", children={"n": dict(data="M", children={})})
            rec.check(c.to_dict() == want, "config-replace", f"replacing {p}")
            for de in DELIMITERS:
                c2 = ConfigTree.from_dict(t.to_dict())
                c2.replace_subtree(p.replace(".", de), ConfigTree("N", {"n": ConfigTree("M")}), delimiter=de)
                rec.check(c2.to_dict() == want, "delimiter", f"replacing {p} with {de!r}")
            rec.check(t.to_dict() == as_dict(e), "config-copy", f"original changed by replacing {p} in its copy")
            rec.expect_raises(lambda: c.replace_subtree(p + ".nope", ConfigTree("N")), "config-replace", f"replacing {p}.nope", (KeyError,))
        rec.nontrivial(["config", r, i, j])


def run_unit(unit, rec):
    if unit["kind"] == "models":
        return check_models(rec)
    if unit["kind"] == "config":
        return check_config(rec, unit["tier"])
    if unit["kind"] == "updates":
        for d in range(unit["depth"]):
            for rest in itertools.product(OPS, repeat=d):
                seq = [OPS[unit["first"]], *rest]
                rec.at(dict(updates=seq))
                run_updates(seq, rec)
                rec.outcome("update sequences")
        return
    roots, kids = root_sets(unit["tier"]), child_sets(unit["tier"])
    for i in range(unit["lo"], len(roots), unit["step"]):
        for j, k in enumerate(kids):
            rec.at(dict(root=[str(s) for s in roots[i]], children=j))
            check_tree(node(roots[i], 0, k), rec)
            rec.nontrivial([i, j])
            rec.outcome("trees")
    rec.sample(dict(root=[str(s) for s in roots[unit["lo"] % len(roots)]], children=len(kids)))
