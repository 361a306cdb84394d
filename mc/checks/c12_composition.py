"""C12: models assembled from configuration have the declared structure."""
import itertools

import numpy as np

from mc import comp as C

CHECK = dict(
    id="C12",
    level="exploration",
    technique="exhaustive enumeration of all type selections, parameter override subsets, malformed requests and registry "
    "histories within bounds, on the real classes, against an independent statement of structure and values",
    rule="every assignment of types to places up to depth 3 of a family of composable models and every tire/aero selection of the "
    "library vehicles; every subset of parameter overrides; every single malformed request; every registry history up to "
    "the depth bound; each selection/subset/history is a distinct case",
    assumptions=["the harness models follow the documented way to write a model"],
    note="All selections and histories within the bounds, driven through the public classes.",
)


def sels(depth, roots=C.TYPES):
    """All selections with at most `depth` levels of submodels."""
    out = []
    for t in roots:
        slots = C.SPEC[t][6]
        if not slots:
            out.append((t, {}))
        elif depth > 0:
            inner = sels(depth - 1, [x for x in C.TYPES if x != "MCroot"])
            for combo in itertools.product(inner, repeat=len(slots)):
                out.append((t, dict(zip(slots, combo))))
    return out


def all_sels(tier):
    out = sels(2, ["MCm", "MCn", "MCd"])
    # root: depth 2 everywhere is large; all pairs of one-level children, and every deep selection in one place
    one = sels(1, [x for x in C.TYPES if x != "MCroot"])
    two = sels(2, [x for x in C.TYPES if x != "MCroot"])
    for a, b in itertools.product(one, repeat=2):
        out.append(("MCroot", dict(l=a, h=b)))
    for s in two:
        out.append(("MCroot", dict(l=s, h=("MCb", {}))))
        out.append(("MCroot", dict(l=("MCa", {}), h=s)))
        if tier == "thorough":
            for o in one:
                out += [("MCroot", dict(l=s, h=o)), ("MCroot", dict(l=o, h=s))]
    return out


def units(tier):
    n = 24
    out = [dict(kind="assemble", tier=tier, lo=i, step=n) for i in range(n)]
    out += [dict(kind="params", i=i) for i in range(7)]
    out += [dict(kind="refuse", tier=tier)]
    out += [dict(kind="registry", depth=4 if tier == "quick" else 6, first=f) for f in range(6)]
    out += [dict(kind="library", name=n, aero=a) for n in ("SimpleVehicle", "SimpleVehicleOnTrack") for a in ("ConstAero", "GPAero", "MLPAero")]
    out += [dict(kind="defaults")]
    return out


def tree_eq(d, e):
    """Nested dictionaries of parameters are equal, including the order of the names."""
    if list(d["data"]) != list(e["data"]) or list(d["children"]) != list(e["children"]):
        return False
    for n, v in d["data"].items():
        if np.shape(v) != np.shape(e["data"][n]) or not np.all(np.asarray(v) == np.asarray(e["data"][n])):
            return False
    return all(tree_eq(d["children"][c], e["children"][c]) for c in d["children"])


def nodes(sel, path=""):
    yield path, sel
    for p, s in sel[1].items():
        yield from nodes(s, (path + "." if path else "") + p)


ARGS = dict(u=0.7, v=-1.3, c=0.4)
STATES = dict(x1=0.35, x2=1.9, z=-0.6)


def check_model(model, sel, prm, rec, what, values=True):
    for path, s in nodes(sel):
        m = model.get_submodel(path) if path else model
        rec.check(type(m).__name__ == s[0], "type", f"{what}: submodel '{path}' is a {type(m).__name__}, expected {s[0]}")
        exp = C.names(s)
        for g, n in exp.items():
            got = m.get_group_names(g)
            rec.check(tuple(got) == tuple(n), "names", f"{what}: {g} of '{path}': {got}, expected {n}")
            rec.check(m.get_num_vars(g) == len(n), "num", f"{what}: number of {g} of '{path}'")
            for i, nm in enumerate(n):
                rec.check(m.get_var_index(g, nm) == i, "index", f"{what}: index of {nm} in {g} of '{path}'")
            rec.expect_raises(lambda: m.get_var_index(g, "nosuch"), "index-unknown", f"{what}: index of an unknown {g}", (KeyError,))
        if C.SPEC[s[0]][0] == "ss":
            pos = 0
            for g in m.implicit_inputs:
                idx = m.get_group_indices_in_flat(g)
                rec.check(list(idx) == list(range(pos, pos + len(exp[g]))), "flat", f"{what}: flat positions of {g}: {list(idx)}")
                for i, nm in enumerate(exp[g]):
                    rec.check(m.get_var_index_in_flat(g, nm) == pos + i, "flat", f"{what}: flat position of {g}.{nm}")
                pos += len(exp[g])
            rec.check(m.num_implicit_var == pos, "num", f"{what}: number of flat variables {m.num_implicit_var} != {pos}")
            nr = len(exp["states"]) + len(exp["con_outputs"]) + len(exp["residuals"])
            rec.check(m.num_implicit_res == nr, "num", f"{what}: number of equations {m.num_implicit_res} != {nr}")
            rec.check(m.num_states == len(exp["states"]) and m.num_con_outputs == len(exp["con_outputs"]), "num", f"{what}: counts")
        rec.check((m.num_inputs, m.num_outputs, m.num_residuals) == tuple(len(exp[g]) for g in ("inputs", "outputs", "residuals")),
                  "num", f"{what}: counts of '{path}'")
        rec.check(m.get_submodel_names() == list(s[1]), "places", f"{what}: places of '{path}': {m.get_submodel_names()}")
        rec.check(m.is_leaf() == (not s[1]), "leaf", f"{what}: is_leaf of '{path}'")
        sub = prm
        for p in filter(None, path.split(".")):
            sub = sub["children"][p]
        rec.check(tree_eq(m.get_recursive_params().to_dict(), sub), "params",
                  lambda: f"{what}: parameters of '{path}': {m.get_recursive_params()}, expected {sub}")
    if values:
        o, d = C.evaluate(sel, prm, ARGS, STATES, 2.5)
        kind, inputs, states, *_ = C.SPEC[sel[0]]
        a = {n: ARGS[n] for n in inputs}
        if kind == "ss":
            r = model.forward({n: STATES[n] for n in states}, a, 2.5)
            rec.check(set(r.states_dot) == set(d), "dot-names", f"{what}: states_dot names")
            rec.close([r.states_dot[n] for n in d], [d[n] for n in d], "dot", f"{what}: states_dot")
        else:
            r = model.forward(a)
        rec.check(set(r.outputs) == set(o), "output-names", f"{what}: outputs {sorted(r.outputs)}, expected {sorted(o)}")
        rec.close([r.outputs[n] for n in o], [o[n] for n in o], "outputs", f"{what}: outputs {list(o)}")


def run_assemble(unit, rec):
    from lumos.models.composition import ModelMaker

    C.register()
    all_ = all_sels(unit["tier"])
    for sel in all_[unit["lo"]::unit["step"]]:
        rec.at(dict(sel=str(sel)))
        cfg = C.config_of(sel)
        m = ModelMaker.make_model_from_config(cfg)
        check_model(m, sel, C.params(sel), rec, f"{sel}")
        # a second model from the same configuration, directly from the class
        m2 = C.define()[sel[0]](model_config=cfg)
        check_model(m2, sel, C.params(sel), rec, f"{sel} again", values=False)
        rec.nontrivial(str(sel))
        rec.sample(dict(selection=str(sel), outputs=list(m.names.outputs)))


def run_defaults(unit, rec):
    from lumos.models.composition import ModelMaker

    C.register()

    def shape(d):
        return (d["data"], {k: shape(v) for k, v in d["children"].items()})

    for t in C.TYPES:
        sel = C.default_sel(t)
        for how, m in (("name", ModelMaker.make_model_from_name(t)), ("class", C.define()[t]()),
                       ("config", ModelMaker.make_model_from_config(ModelMaker.make_config(t)))):
            rec.at(dict(type=t, how=how))
            check_model(m, sel, C.params(sel), rec, f"default {t} from {how}")
            rec.nontrivial((t, how))
        got = shape(ModelMaker.make_config(t).to_dict())
        rec.check(got == sel, "default-config", f"default configuration of {t}: {got}, expected {sel}")
        got = shape(C.define()[t].get_recursive_default_model_config().to_dict())
        rec.check(got == sel, "default-config", f"default configuration of class {t}: {got}")
        rec.check(ModelMaker.get_model_class(t) is C.define()[t], "registry", f"class of {t}")


def run_params(unit, rec):
    """All subsets of leaf overrides, through every way to state parameters."""
    from lumos.models.composition import ModelMaker
    from lumos.models.tree_utils import ParameterTree

    C.register()
    A, B, Cc = ("MCa", {}), ("MCb", {}), ("MCc", {})
    sel = [
        ("MCroot", dict(l=("MCm", dict(p=A, q=B)), h=B)),
        ("MCroot", dict(l=A, h=("MCd", dict(e=A)))),
        ("MCm", dict(p=("MCn", dict(r=A)), q=A)),
        ("MCd", dict(e=("MCm", dict(p=B, q=Cc)))),
        ("MCroot", dict(l=("MCd", dict(e=B)), h=("MCn", dict(r=Cc)))),
        ("MCroot", dict(l=Cc, h=("MCm", dict(p=A, q=A)))),
        ("MCn", dict(r=("MCm", dict(p=A, q=B)))),  # nothing of its own to set
    ][unit["i"]]
    paths = []
    for path, s in nodes(sel):
        paths += [(path, n) for n in C.SPEC[s[0]][7]]
    cfg = C.config_of(sel)
    shared = ModelMaker.make_model_from_config(cfg)
    cls = C.define()[sel[0]]
    for bits in itertools.product((0, 1), repeat=len(paths)):
        chosen = [p for p, b in zip(paths, bits) if b]
        rec.at(dict(sel=str(sel), override=chosen))
        want = C.params(sel)
        tree = cls(model_config=cfg).get_recursive_params()
        for k, (path, n) in enumerate(chosen):
            node = want
            for p in filter(None, path.split(".")):
                node = node["children"][p]
            v = np.asarray(node["data"][n]) * -1.5 + 0.01 * (k + 1)
            v = float(v) if v.shape == () else v
            node["data"] = {**node["data"], n: v}
            tree.set_param((path + "." if path else "") + n, v)
        m = cls(model_config=cfg, params=tree)
        check_model(m, sel, want, rec, f"{sel} constructed with {chosen}")
        shared.set_recursive_params(ParameterTree.from_dict(tree.to_dict()))
        check_model(shared, sel, want, rec, f"{sel} set to {chosen}")
        for path, s in nodes(sel):
            if path:
                sub = ModelMaker.make_model_from_config(C.config_of(s))
                sub.set_recursive_params(_subtree(tree, path))
                node = want
                for p in path.split("."):
                    node = node["children"][p]
                check_model(sub, s, node, rec, f"{s} set to the part {path}", values=False)
        rec.nontrivial((str(sel), chosen))
    # a value left out is not replaced by an earlier one
    for path, n in paths:
        rec.at(dict(sel=str(sel), without=[path, n]))
        d = cls(model_config=cfg).get_recursive_params().to_dict()
        node = d
        for p in filter(None, path.split(".")):
            node = node["children"][p]
        node["data"] = {q: v for q, v in node["data"].items() if q != n}
        for m in (shared, cls(model_config=cfg)):
            try:
                m.set_recursive_params(ParameterTree.from_dict(d))
            except Exception:
                continue  # refused
            rec.check(tree_eq(m.get_recursive_params().to_dict(), d), "left-out", lambda: f"{path}:{n} left out, yet {m.get_recursive_params()}")


def _subtree(tree, path):
    for p in path.split("."):
        tree = tree.get_child(p)
    return tree


def run_refuse(unit, rec):
    from lumos.models.base import Model, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io
    from lumos.models.composition import ModelMaker
    from lumos.models.tree_utils import ConfigTree, ParameterTree

    C.register()
    cl = C.define()

    def case(key, fn, types, what):
        rec.at(dict(refuse=what))
        rec.expect_raises(fn, key, what, types)
        rec.nontrivial(what)

    for bad in ("nosuch", "", "mca", "MCA", "MCa ", "Model"):
        case("unknown-type", lambda: ModelMaker.make_config(bad), (KeyError,), f"make_config({bad!r})")
        case("unknown-type", lambda: ModelMaker.make_model_from_name(bad), (KeyError,), f"make_model_from_name({bad!r})")
        case("unknown-type", lambda: ModelMaker.get_model_class(bad), (KeyError,), f"get_model_class({bad!r})")
        case("unknown-type", lambda: ModelMaker.make_model_from_config(ConfigTree(bad)), (KeyError,), f"config of {bad!r}")
    # a configuration for another class
    for a, b in itertools.permutations(C.TYPES, 2):
        case("wrong-class", lambda: cl[a](model_config=ModelMaker.make_config(b)), (TypeError,), f"{a} from the config of {b}")
    # also when one class is derived from the other
    for a in C.TYPES:
        sub = type(a + "Derived", (cl[a],), {})
        for k in (sub, type(a + "Twice", (sub,), {})):
            case("wrong-class", lambda: k(model_config=ModelMaker.make_config(a)), (TypeError,), f"{k.__name__} from the config of {a}")
        base = ModelMaker.make_config(a)
        cfg = ConfigTree(sub.__name__, children={n: base.get_child(n) for n in cl[a].get_submodel_names()})
        case("wrong-class", lambda: cl[a](model_config=cfg), (TypeError,), f"{a} from the config of {sub.__name__}")
        rec.check(type(sub(model_config=cfg)) is sub, "derived", f"{sub.__name__} from its own config")
    # unknown types, missing places at any place of a selection
    for sel in [C.default_sel("MCroot"), ("MCroot", dict(l=("MCd", dict(e=("MCm", dict(p=("MCa", {}), q=("MCn", dict(r=("MCb", {}))))))), h=("MCb", {})))]:
        for path, s in nodes(sel):
            if path:
                cfg = C.config_of(sel)
                cfg.replace_subtree(path, ConfigTree("nosuch"))
                case("unknown-type", lambda: ModelMaker.make_model_from_config(cfg), (KeyError,), f"unknown type at {path} of {sel}")
            for p in s[1]:
                cfg = ConfigTree(s[0], children={q: C.config_of(c) for q, c in s[1].items() if q != p})
                if path:
                    full = C.config_of(sel)
                    full.replace_subtree(path, cfg)
                    cfg = full
                case("missing-place", lambda: ModelMaker.make_model_from_config(cfg), (KeyError,), f"no '{p}' at '{path}' of {sel}")
                full = ModelMaker.make_model_from_config(C.config_of(sel)).get_recursive_params()
                d = full.to_dict()
                node = d
                for q in filter(None, path.split(".")):
                    node = node["children"][q]
                del node["children"][p]
                case("missing-params", lambda: ModelMaker.make_model_from_config(C.config_of(sel)).set_recursive_params(ParameterTree.from_dict(d)),
                     (KeyError,), f"parameters without '{p}' at '{path}' of {sel}")
                case("missing-params", lambda: cl[sel[0]](model_config=C.config_of(sel), params=ParameterTree.from_dict(d)),
                     (KeyError,), f"constructor parameters without '{p}' at '{path}' of {sel}")
        # a place the model does not have, next to the ones it has
        for path, s in nodes(sel):
            for place in ("extra", "", "l", "r"):
                if place in s[1]:
                    continue
                for t in ("MCa", "MCd", "nosuch"):
                    cfg = C.config_of(sel)
                    node = cfg
                    for q in filter(None, path.split(".")):
                        node = node.get_child(q)
                    node.add_child(place, ConfigTree(t))
                    case("unknown-place", lambda: ModelMaker.make_model_from_config(cfg), (KeyError,), f"a {t} at '{place}' of '{path}' of {sel}")
        cfg = C.config_of(sel)
        for path in ("nosuch", "l.nosuch", "h.q", "l.e.nosuch.x", ""):
            case("unknown-place", lambda: cfg.replace_subtree(path, ConfigTree("MCa")), (KeyError,), f"replace_subtree({path!r})")
            case("unknown-place", lambda: ModelMaker.make_model_from_config(C.config_of(sel)).get_submodel(path), (KeyError,), f"get_submodel({path!r})")
    for name, c in cl.items():
        case("duplicate", lambda: ModelMaker.add_to_registry(c), (ValueError,), f"registering {name} again")
        other = type(name, (Model,), {})
        case("duplicate", lambda: ModelMaker.add_to_registry(other), (ValueError,), f"registering another {name}")
        rec.check(ModelMaker.get_model_class(name) is c, "duplicate", f"the refused registration replaced {name}")
    # declarations
    case("decorator", lambda: state_space_io(states=("x",))(type("MCx", (Model,), {})), (RuntimeError,), "state_space_io on a static model")

    def ss(outputs, cons=(), res=()):
        def forward(self, states, inputs, mesh):
            return StateSpaceModelReturn(states_dot=dict(x=0.0), outputs=self.make_outputs_dict(**{o: 1.0 for o in outputs}))

        return state_space_io(states=("x",), inputs=("u",), outputs=outputs, con_outputs=cons, residuals=res)(
            type("MCy", (StateSpaceModel,), dict(forward=forward)))

    universe = ("a", "b", "x", "u")
    for no in range(3):
        outs = ("a", "b")[:no]
        for r in range(3):
            for sub in itertools.permutations(universe, r):
                ok = all(n in outs for n in sub)
                for kw, key in ((dict(cons=sub), "con_outputs"), (dict(res=sub), "residuals")):
                    what = f"{key}={sub} with outputs={outs}"
                    if ok:
                        rec.at(dict(accept=what))
                        m = ss(outs, **kw)()
                        rec.check(m.get_group_names(key) == sub, key, f"{what}: {m.get_group_names(key)}")
                        rec.nontrivial(what)
                    else:
                        case(key, lambda: ss(outs, **kw)(), (ValueError,), what)
    # a residual of a submodel that is not among its outputs is no residual of a state space model

    @model_io(inputs=("u", "v"), outputs=("s",), residuals=("r",))
    class MCbad(Model):
        def forward(self, inputs):
            from lumos.models.base import ModelReturn

            return ModelReturn(outputs=self.make_outputs_dict(s=1.0), residuals=dict(r=1.0))

    ModelMaker.add_to_registry(MCbad)
    for p in ("l", "h"):
        cfg = ModelMaker.make_config("MCroot")
        cfg.replace_subtree(p, ModelMaker.make_config("MCbad"))
        case("residuals", lambda: ModelMaker.make_model_from_config(cfg), (ValueError,), f"residual without output at {p}")
    ModelMaker.remove_from_registry(MCbad)
    # selecting constraint outputs
    for r in range(3):
        for sub in itertools.permutations(C.names(C.default_sel("MCroot"))["outputs"], r):
            rec.at(dict(con_outputs=sub))
            m = cl["MCroot"]()
            m.set_con_outputs(sub)
            exp = C.names(C.default_sel("MCroot"))
            rec.check(tuple(m.get_group_names("con_outputs")) == sub, "con_outputs", f"con_outputs set to {sub}")
            for g, n in exp.items():
                if g != "con_outputs":
                    rec.check(tuple(m.get_group_names(g)) == n, "con_outputs", f"{g} after setting con_outputs to {sub}")
            rec.check(m.num_implicit_var == 3 + 3 + 3 + r and m.num_implicit_res == 3 + r + 3, "con_outputs", f"sizes with con_outputs {sub}: {m.num_implicit_var} {m.num_implicit_res}")
            rec.check(cl["MCroot"]().get_group_names("con_outputs") == ("o2",), "con_outputs", "con_outputs of another instance changed")
            rec.nontrivial(("con", sub))


def run_registry(unit, rec):
    """All registry histories, against a plain set."""
    from lumos.models.base import Model, ModelReturn, model_io
    from lumos.models.composition import ModelMaker

    C.register()

    def mk(name, tag):
        return model_io(inputs=("u", "v"), outputs=(tag,))(
            type(name, (Model,), dict(forward=lambda self, inputs: ModelReturn(outputs={tag: 1.0}), tag=tag)))

    # two classes of one name, and another
    X1, X2, Y = mk("MCx", "x1"), mk("MCx", "x2"), mk("MCy", "y")
    ops = [("add", X1), ("add", X2), ("add", Y), ("del", X1), ("del", Y), ("use", None)]

    def apply(reg, op):
        what, c = op
        if what == "add":
            if c.__name__ in reg:
                rec.expect_raises(lambda: ModelMaker.add_to_registry(c), "duplicate", "adding an existing name", (ValueError,))
            else:
                ModelMaker.add_to_registry(c)
                reg = {**reg, c.__name__: c}
        elif what == "del":
            if c.__name__ in reg:
                ModelMaker.remove_from_registry(c)
                reg = {n: v for n, v in reg.items() if n != c.__name__}
            else:
                rec.expect_raises(lambda: ModelMaker.remove_from_registry(c), "unknown", "removing an unknown name", (KeyError,))
        for n in ("MCx", "MCy"):
            if n in reg:
                rec.check(ModelMaker.get_model_class(n) is reg[n], "class", f"class of {n}")
                if what == "use":
                    cfg = ModelMaker.make_config("MCroot")
                    cfg.replace_subtree("h", ModelMaker.make_config(n))
                    m = ModelMaker.make_model_from_config(cfg)
                    rec.check(type(m.get_submodel("h")) is reg[n], "class", f"submodel of type {n}")
                    rec.check(m.names.outputs[-1] == "h." + reg[n].tag, "class", f"outputs of {n}: {m.names.outputs}")
            else:
                rec.expect_raises(lambda: ModelMaker.make_config(n), "unknown", f"{n} not registered", (KeyError,))
        for t in C.TYPES:
            rec.check(ModelMaker.get_model_class(t) is C.define()[t], "class", f"class of {t}")
        return reg

    def rest(reg, hist):
        rec.state(("registry", sorted((n, c.tag) for n, c in reg.items()), len(hist)))

    for seq in itertools.product(range(len(ops)), repeat=unit["depth"] - 1):
        hist = (unit["first"],) + seq
        rec.at(dict(history=[(ops[i][0], getattr(ops[i][1], "tag", "")) for i in hist]))
        reg = {}
        for i in hist:
            reg = apply(reg, ops[i])
            rec.transition()
        rest(reg, hist)
        rec.nontrivial(hist)
        for c in list(reg.values()):
            ModelMaker.remove_from_registry(c)


def run_library(unit, rec):
    """All tire and aero selections of the library vehicles."""
    import lumos.models  # noqa: F401
    from lumos.models.composition import ModelMaker

    name, aero = unit["name"], unit["aero"]
    pre = "vehicle." if name == "SimpleVehicleOnTrack" else ""
    corners = ("fl", "fr", "rl", "rr")
    for tires in itertools.product(("MF52", "PerantoniTire"), repeat=4):
        rec.at(dict(name=name, aero=aero, tires=tires))
        cfg = ModelMaker.make_config(name)
        for c, t in zip(corners, tires):
            cfg.replace_subtree(f"{pre}tire_{c}", ModelMaker.make_config(t))
        cfg.replace_subtree(f"{pre}aero", ModelMaker.make_config(aero))
        m = ModelMaker.make_model_from_config(cfg)
        v = m.get_submodel("vehicle") if pre else m
        expect = {f"tire_{c}": t for c, t in zip(corners, tires)}
        expect["aero"] = aero
        for place, t in expect.items():
            sub = v.get_submodel(place)
            rec.check(sub is m.get_submodel(pre + place), "path", f"path to {pre + place}")
            rec.check(type(sub) is ModelMaker.get_model_class(t), "type", f"{place} is {type(sub).__name__}, expected {t}")
            d = m.get_recursive_params()
            for n in filter(None, (pre + place).split(".")):
                d = d.get_child(n)
            names = list(ModelMaker.get_model_class(t).get_default_params())
            rec.check(list(d.data) == names, "params", f"parameters of {place}: {list(d.data)}, expected {names}")
            if t in ("MF52", "PerantoniTire", "ConstAero"):
                default = dict(ModelMaker.get_model_class(t).get_default_params())
                rec.check(all(np.all(d.data[n] == default[n]) for n in names), "params", f"default parameters of {place}")
        own = [pre + n for n in v.get_direct_group_names("outputs")]
        sub = []
        for place, t in expect.items():
            sub += [pre + place + "." + n for n in ModelMaker.get_model_class(t).get_direct_group_names("outputs")]
        kin = ["kinematics." + n for n in m.get_submodel("kinematics").get_direct_group_names("outputs")] if pre else []
        direct = list(m.get_direct_group_names("outputs")) if pre else []
        want = direct + own + sub + kin
        rec.check(list(m.names.outputs) == want, "names", lambda: f"outputs {m.names.outputs}, expected {want}")
        rec.check(tuple(m.names.residuals) == tuple(pre + n for n in v.get_direct_group_names("residuals")), "names", f"residuals {m.names.residuals}")
        rec.check(len(set(want)) == len(want), "names", "duplicate output names")
        if pre:
            k = m.get_submodel("kinematics")
            rec.check(set(m.names.states) == set(k.names.states) | set(v.names.states), "names", f"states {m.names.states}")
        rec.nontrivial((name, aero, tires))


def run_unit(unit, rec):
    dict(assemble=run_assemble, params=run_params, refuse=run_refuse, registry=run_registry, library=run_library,
         defaults=run_defaults)[unit["kind"]](unit, rec)
