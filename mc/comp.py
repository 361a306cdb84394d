"""A family of composable models with an independent statement of what each computes.

Used by C12 (structure) and C13 (calls). Every quantity a type computes is an affine combination
with coefficients that are different for every (type, output, argument), so that exchanging any
two of them shows.
"""
import numpy as np

from mc import ref as R

_cls = {}

# name: (kind, inputs, states, outputs, con_outputs, residuals, slots {place: default type}, params)
SPEC = {
    "MCa": ("static", ("u", "v"), (), ("s",), (), (), {}, dict(k=2.0, W=R.generic(6, 5).reshape(2, 3))),
    "MCb": ("static", ("v", "u"), (), ("t", "s"), (), ("t",), {}, dict(b=R.generic(3, 8), k=3.0)),
    "MCc": ("static", ("u", "v"), (), (), (), (), {}, dict()),
    "MCm": ("static", ("u", "v"), (), ("m",), (), (), dict(p="MCa", q="MCb"), dict(g=1.25)),
    "MCn": ("static", ("u", "v"), (), ("n", "s"), (), ("n",), dict(r="MCc"), dict()),
    "MCd": ("ss", ("u", "v"), ("x2", "z"), ("w",), ("w",), (), dict(e="MCa"), dict(k=1.5)),
    "MCroot": ("ss", ("u", "c", "v"), ("x2", "x1", "z"), ("o1", "o2"), ("o2",), ("o1",), dict(l="MCm", h="MCb"), dict(k=0.5)),
}
TYPES = list(SPEC)
LEAVES = ["MCa", "MCb", "MCc"]


def coef(*key):
    """A number in [0.5, 1.5) that is different for every key."""
    return 0.5 + _h(key)


def _h(key):
    import hashlib

    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=6).digest(), "big") / 2.0 ** 48


def value(tname, out, args, params):
    """What output `out` of type `tname` computes, from numbers (any numeric type)."""
    tot = coef(tname, out)
    for n, a in args.items():
        tot = tot + coef(tname, out, n) * a
    for n, p in params.items():
        shape = np.shape(SPEC[tname][7][n])
        if shape == ():
            tot = tot + coef(tname, out, n) * p * args["u"]
        else:
            for idx in np.ndindex(*shape):
                e = p[idx if len(idx) > 1 else idx[0]]
                tot = tot + coef(tname, out, n, idx) * e * args["v"]
    return tot


def child_args(args, i):
    """Arguments handed to the i-th child."""
    return dict(u=args["u"] * (1 + 0.1 * i) + 0.2, v=args["v"] - 0.3 * i)


def define():
    """Define the classes (once per process); returns {name: class}."""
    if _cls:
        return _cls
    from lumos.models.base import Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io

    for name, (kind, inputs, states, outputs, cons, res, slots, params) in SPEC.items():
        def default_params(cls, _p=params):
            return {n: (v.copy() if hasattr(v, "copy") else v) for n, v in _p.items()}

        def default_slots(cls, _s=slots):
            return dict(_s)

        def fwd(self, args, mesh, states, _name=name, _slots=slots):
            sub = {}
            fault, at = getattr(self, "fault", None) or (None, None)  # injected by C13
            for i, place in enumerate(_slots):
                if at == i and fault == "forget":
                    continue
                if at == i and fault == "raise":
                    raise ArithmeticError("injected")
                child = self.get_submodel(place)
                kw = dict(inputs=child_args(args, i))
                if isinstance(child, StateSpaceModel):
                    kw["states"] = {n: states[n] if n in states else args["u"] for n in child.get_group_names("states")}
                    kw["mesh"] = mesh
                if at == i and fault == "input":
                    del kw["inputs"]["u"]
                if at == i and fault == "state":
                    kw["states"].popitem()
                if at == i and fault == "extra":
                    kw["inputs"]["nosuch"] = 7.0
                if at == i and fault == "unknown":
                    self.call_submodel("nosuch", **kw)
                r = self.call_submodel(place, **kw)
                if at == i and fault == "twice":
                    self.call_submodel(place, **kw)
                for n in child.get_direct_group_names("outputs"):
                    sub[place + "." + n] = r.outputs[n]
            if fault == "late":
                raise ArithmeticError("injected")
            return {**args, **sub}

        if kind == "static":
            def forward(self, inputs, _name=name, _outputs=outputs, _res=res, _fwd=fwd):
                args = _fwd(self, {n: inputs[n] for n in ("u", "v")}, 0.0, {})
                _skip = _outputs[:1] if getattr(self, "fault", None) == ("output", None) else ()
                out = self.make_outputs_dict(**{o: value(_name, o, args, self._params) for o in _outputs if o not in _skip})
                return ModelReturn(outputs=out, residuals={n: out[n] for n in self.names.residuals})

            base, deco = Model, model_io(inputs=inputs, outputs=outputs, residuals=res)
        else:
            def forward(self, states, inputs, mesh, _name=name, _outputs=outputs, _states=states, _inputs=inputs, _fwd=fwd):
                args = {n: inputs[n] for n in _inputs}
                args = _fwd(self, args, mesh, states)
                args.update({n: states[n] for n in _states}, mesh=mesh)
                _skip = _outputs[:1] if getattr(self, "fault", None) == ("output", None) else ()
                out = self.make_outputs_dict(**{o: value(_name, o, args, self._params) for o in _outputs if o not in _skip})
                dot = self.make_dict("states_dot", **{
                    n: value(_name, n + "_dot", args, self._params) for n in reversed(_states)
                    if not (n == _states[0] and getattr(self, "fault", None) == ("dot", None))})
                return StateSpaceModelReturn(states_dot=dot, outputs=out)

            base, deco = StateSpaceModel, state_space_io(
                states=states, inputs=inputs, outputs=outputs, con_outputs=cons, residuals=res)
        cls = type(name, (base,), dict(
            forward=forward, get_default_params=classmethod(default_params),
            get_default_submodel_config=classmethod(default_slots)))
        _cls[name] = deco(cls)
    return _cls


def register():
    from lumos.models.composition import ModelMaker

    for c in define().values():
        try:
            ModelMaker.get_model_class(c.__name__)
        except KeyError:
            ModelMaker.add_to_registry(c)


# -- selections: (type, {place: selection}) -----------------------------------------
def default_sel(t):
    return (t, {p: default_sel(c) for p, c in SPEC[t][6].items()})


def config_of(sel):
    """ConfigTree of a selection, built through the public API (default plus replacements)."""
    from lumos.models.composition import ModelMaker

    cfg = ModelMaker.make_config(sel[0])
    for p, s in sel[1].items():
        cfg.replace_subtree(p, config_of(s))
    return cfg


def names(sel):
    """The expected io names of a selection."""
    kind, inputs, states, outputs, cons, res, _, _ = SPEC[sel[0]]
    out, rs = list(outputs), list(res)
    for p, s in sel[1].items():
        c = names(s)
        out += [p + "." + n for n in c["outputs"]]
        rs += [p + "." + n for n in c["residuals"]]
    d = dict(inputs=inputs, outputs=tuple(out), residuals=tuple(rs))
    if kind == "ss":
        d.update(states=states, states_dot=states, con_outputs=cons)
    return d


def params(sel):
    """The expected default parameters as nested dictionaries."""
    return dict(data=dict(SPEC[sel[0]][7]), children={p: params(s) for p, s in sel[1].items()})


def evaluate(sel, prm, args, states=None, mesh=None):
    """Expected (outputs, states_dot) of a selection with nested parameters `prm`."""
    tname, subs = sel
    kind, inputs, snames, outputs, *_ = SPEC[tname]
    states = states or {}
    full = {n: args[n] for n in (inputs if kind == "ss" else ("u", "v"))}
    if kind == "static":  # knows neither states nor mesh
        states, mesh = {}, 0.0
    sub, allsub = {}, {}
    for i, (p, s) in enumerate(subs.items()):
        cs = {n: states[n] if n in states else full["u"] for n in SPEC[s[0]][2]}
        o, _ = evaluate(s, prm["children"][p], child_args(full, i), cs, mesh)
        for n in SPEC[s[0]][3]:
            sub[p + "." + n] = o[n]
        allsub.update({p + "." + n: v for n, v in o.items()})
    full.update(sub)
    if kind == "ss":
        full.update({n: states[n] for n in snames}, mesh=mesh)
    out = {o: value(tname, o, full, prm["data"]) for o in outputs}
    dot = {n: value(tname, n + "_dot", full, prm["data"]) for n in snames}
    return {**out, **allsub}, dot
