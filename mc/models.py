"""Small models used by the harnesses, together with independent reference mathematics.

Each lumos model below is a thin wrapper around a plain function of scalars (`math_*`) so that the
same formula can be evaluated (a) by lumos under its numpy / jax / casadi backends and (b) by the
reference, on plain floats or on casadi SX scalars, without going through any lumos machinery.
"""
import numpy as np
import casadi as cas

import lumos.numpy as lnp
from lumos.models.base import (
    Model,
    ModelReturn,
    StateSpaceModel,
    StateSpaceModelReturn,
    model_io,
    state_space_io,
)
from lumos.models.composition import ModelMaker


class NpNs:
    sin = staticmethod(np.sin)
    cos = staticmethod(np.cos)
    exp = staticmethod(np.exp)
    maximum = staticmethod(np.maximum)


class CasNs:
    sin = staticmethod(cas.sin)
    cos = staticmethod(cas.cos)
    exp = staticmethod(cas.exp)
    maximum = staticmethod(cas.fmax)


# --- TinyA: three states, two inputs, three outputs, scalar + matrix + vector parameters ----------
TINY_A_PARAMS = {
    "a": 0.7,
    "k": np.array([[0.3, -0.2, 0.5], [1.1, 0.4, -0.6]]),
    "v": np.array([0.9, -1.3]),
}


def math_a(ns, x, u, mesh, p, mesh_dep):
    a, k, v = p["a"], p["k"], p["v"]
    m = mesh if mesh_dep else 0.25
    tdot = 1.0 / (2.0 + x["q"] * x["q"])
    pdot = a * ns.sin(x["q"]) * u["u"] + k[0, 1] * x["p"] * m * (1.0 + 0.5 * u["w"]) + k[1, 0] * x["p"] * x["q"]
    qdot = x["p"] * u["w"] - k[0, 2] * x["q"] + v[1] * u["u"] ** 2
    o1 = x["p"] * x["q"] + v[0] * u["u"] + k[1, 2]
    o2 = ns.sin(u["u"]) * u["w"] + m * x["p"] * k[1, 1]
    r1 = x["p"] ** 2 + u["w"] - x["q"] * k[0, 0] + 0.3 * m * (1.0 + x["q"] ** 2)
    return dict(time=tdot, p=pdot, q=qdot), dict(o1=o1, o2=o2, r1=r1)


class _TinyABase(StateSpaceModel):
    mesh_dep = False

    def __init__(self, params={}, model_config={}):
        super().__init__(params=params, model_config=model_config)

    @classmethod
    def get_default_params(cls):
        return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in TINY_A_PARAMS.items()}

    def forward(self, states, inputs, mesh=0.0):
        xd, o = math_a(lnp, states, inputs, mesh, self._params, self.mesh_dep)
        return StateSpaceModelReturn(
            states_dot=self.make_dict("states_dot", **xd), outputs=self.make_dict("outputs", **o)
        )


@state_space_io(states=("time", "p", "q"), inputs=("u", "w"), outputs=("o1", "o2", "r1"))
class TinyA(_TinyABase):
    """No residuals."""


@state_space_io(
    states=("time", "p", "q"), inputs=("u", "w"), outputs=("o1", "o2", "r1"), residuals=("r1",)
)
class TinyARes(_TinyABase):
    """One residual."""


@state_space_io(
    states=("time", "p", "q"), inputs=("u", "w"), outputs=("o1", "o2", "r1"), residuals=("r1",)
)
class TinyAMesh(_TinyABase):
    """One residual; the dynamics depend explicitly on the mesh (time-varying)."""

    mesh_dep = True


# --- TinyB: one state, one input, one parameter, no outputs ---------------------------------------
def math_b(ns, x, u, mesh, p):
    return dict(time=p["c"] * x["time"] * u["u"] + ns.cos(u["u"]) * x["time"] ** 2), {}


@state_space_io(states=("time",), inputs=("u",))
class TinyB(StateSpaceModel):
    def __init__(self, params={}, model_config={}):
        super().__init__(params=params, model_config=model_config)

    @classmethod
    def get_default_params(cls):
        return {"c": 0.8}

    def forward(self, states, inputs, mesh=0.0):
        xd, _ = math_b(lnp, states, inputs, mesh, self._params)
        return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", **xd), outputs={})


# --- TinyL: linear, without parameters -------------------------------------------------------------
def math_l(ns, x, u, mesh, p):
    return dict(time=1.0 + 0.5 * u["u"], p=x["v"], v=3.0 * u["u"] - 0.4 * x["p"]), dict(y=2.0 * x["p"] - u["u"])


@state_space_io(states=("time", "p", "v"), inputs=("u",), outputs=("y",))
class TinyL(StateSpaceModel):
    def __init__(self, params={}, model_config={}):
        super().__init__(params=params, model_config=model_config)

    def forward(self, states, inputs, mesh=0.0):
        xd, o = math_l(lnp, states, inputs, mesh, {})
        return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", **xd), outputs=self.make_dict("outputs", **o))


# --- TinyN: names that begin, end or repeat one another; the time state is not the first one ----------
def math_n(ns, x, u, mesh, p):
    xd = dict(v=p["b"] * x["vx"] * u["v"] + ns.sin(x["v"]), time=1.0 + 0.3 * x["v"] * u["u"],
              vx=u["uv"] * x["v"] - p["bb"][1] * x["vx"] ** 2 + p["bb"][0] * u["u"])
    return xd, dict(y=x["v"] * u["v"], yv=x["vx"] + u["uv"] * u["u"] * p["b"], u=x["time"] * u["u"])


@state_space_io(states=("v", "time", "vx"), inputs=("u", "uv", "v"), outputs=("y", "yv", "u"), residuals=("yv",))
class TinyN(StateSpaceModel):
    def __init__(self, params={}, model_config={}):
        super().__init__(params=params, model_config=model_config)

    @classmethod
    def get_default_params(cls):
        return {"bb": np.array([0.4, -0.9]), "b": 1.3}

    def forward(self, states, inputs, mesh=0.0):
        xd, o = math_n(lnp, states, inputs, mesh, self._params)
        return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", **xd), outputs=self.make_dict("outputs", **o))


# --- TinyK: kinks and parameters that are zero at first, so that no point shows the whole structure ---
def math_k(ns, x, u, mesh, p):
    pos, neg = ns.maximum(u["u"], 0.0), ns.maximum(-u["u"], 0.0)
    xd = dict(time=1.3 + neg ** 2 * x["p"], p=pos ** 2 * x["p"] + p["z"] * x["time"] * x["p"] + p["g"][0] * u["u"] - 0.2)
    return xd, dict(y=p["z"] * u["u"] + p["g"][0] * x["p"] + p["g"][1] * ns.maximum(x["p"], 0.0) ** 2, r=p["g"][1] * x["p"] * pos + neg - x["time"])


@state_space_io(states=("time", "p"), inputs=("u",), outputs=("y", "r"), residuals=("r",))
class TinyK(StateSpaceModel):
    def __init__(self, params={}, model_config={}):
        super().__init__(params=params, model_config=model_config)

    @classmethod
    def get_default_params(cls):
        return {"z": 0.0, "g": np.array([0.0, 1.5])}

    def forward(self, states, inputs, mesh=0.0):
        xd, o = math_k(lnp, states, inputs, mesh, self._params)
        return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", **xd), outputs=self.make_dict("outputs", **o))


# --- TinyC: composite, two children of the same type ----------------------------------------------
def math_spring(ns, d, v, p):
    f = -p["k"] * d - p["g"][0] * v * v * d + p["g"][1]
    return dict(f=f, e=p["k"] * d * d)


@model_io(inputs=("d", "v"), outputs=("f", "e"))
class TinySpring(Model):
    def __init__(self, params={}, model_config={}):
        super().__init__(params=params, model_config=model_config)

    @classmethod
    def get_default_params(cls):
        return {"k": 2.0, "g": np.array([0.1, 0.05])}

    def forward(self, inputs):
        return ModelReturn(
            outputs=self.make_dict(
                "outputs", **math_spring(lnp, inputs["d"], inputs["v"], self._params)
            )
        )


@model_io(inputs=("d", "v"), outputs=("f", "e"))
class TinySpringAlt(TinySpring):
    """A drop-in variant with a different law and a different parameter set."""

    @classmethod
    def get_default_params(cls):
        return {"s": 1.7}

    def forward(self, inputs):
        d = inputs["d"]
        return ModelReturn(
            outputs=self.make_dict(
                "outputs", f=-self._params["s"] * d ** 3, e=self._params["s"] * inputs["v"]
            )
        )


def math_c(ns, x, u, mesh, p):
    l = math_spring(ns, x["p"], x["time"], p["left"])
    r = math_spring(ns, x["p"] - u["u"], u["u"], p["right"])
    xd = dict(time=1.0 + 0.0 * x["p"], p=(l["f"] + 2.0 * r["f"]) / p["m"])
    o = {"tot": l["e"] + r["e"]}
    o.update({"left." + n: v for n, v in l.items()})
    o.update({"right." + n: v for n, v in r.items()})
    return xd, o


@state_space_io(states=("time", "p"), inputs=("u",), outputs=("tot",))
class TinyC(StateSpaceModel):
    def __init__(self, params={}, model_config={}):
        super().__init__(params=params, model_config=model_config)

    @classmethod
    def get_default_params(cls):
        return {"m": 1.5}

    @classmethod
    def get_default_submodel_config(cls):
        return {"left": "TinySpring", "right": "TinySpring"}

    def forward(self, states, inputs, mesh=0.0):
        l = self.call_submodel("left", inputs=dict(d=states["p"], v=states["time"])).outputs
        r = self.call_submodel("right", inputs=dict(d=states["p"] - inputs["u"], v=inputs["u"])).outputs
        xd = self.make_dict(
            "states_dot",
            time=1.0 + 0.0 * states["p"],
            p=(l["f"] + 2.0 * r["f"]) / self._params["m"],
        )
        return StateSpaceModelReturn(
            states_dot=xd, outputs=self.make_outputs_dict(tot=l["e"] + r["e"])
        )


for _c in (TinySpring, TinySpringAlt, TinyC):
    try:
        ModelMaker.add_to_registry(_c)
    except ValueError:
        pass


# --- custom-derivative variant of TinyA -----------------------------------------------------------
class _CustomMixin:
    """Hand-supplied derivatives (what the 'custom' backend asks the user for), from casadi SX."""

    def _cas_funcs(self):
        key = tuple(self.names.con_outputs)
        if getattr(self, "_cf_key", None) != key:
            nx, nu = self.num_states, self.num_inputs
            ny = self.num_con_outputs
            z = cas.SX.sym("z", self.num_implicit_var)
            mesh = cas.SX.sym("m")
            pa, pk, pv = cas.SX.sym("a"), cas.SX.sym("k", 2, 3), cas.SX.sym("v", 2)
            lam = cas.SX.sym("l", self.num_implicit_res)
            x = {n: z[i] for i, n in enumerate(self.names.states)}
            u = {n: z[nx + i] for i, n in enumerate(self.names.inputs)}
            xd, o = math_a(CasNs, x, u, mesh, {"a": pa, "k": pk, "v": pv}, self.mesh_dep)
            res = [xd[n] - z[nx + nu + i] for i, n in enumerate(self.names.states)]
            res += [o[n] - z[nx + nu + nx + i] for i, n in enumerate(self.names.con_outputs)]
            res += [o[n] for n in self.names.residuals]
            res = cas.vertcat(*res)
            jac = cas.jacobian(res, z)
            hes = cas.hessian(cas.dot(lam, res), z)[0]
            self._jst = tuple(np.array(t) for t in jac.sparsity().get_triplet())
            self._hst = tuple(np.array(t) for t in hes.sparsity().get_triplet())
            self._jf = cas.Function("j", [z, mesh, pa, pk, pv], [jac])
            self._hf = cas.Function("h", [z, mesh, pa, pk, pv, lam], [hes])
            self._cf_key = key

    def _implicit_jacobianstructure(self):
        self._cas_funcs()
        return self._jst

    def _implicit_hessianstructure(self):
        self._cas_funcs()
        return self._hst

    def _implicit_jac(self, flat_vars, mesh, params):
        self._cas_funcs()
        d = params.data
        return np.array(self._jf(flat_vars, mesh, d["a"], d["k"], d["v"]).nonzeros())

    def _implicit_hess(self, flat_vars, mesh, params, mult):
        self._cas_funcs()
        d = params.data
        return np.array(self._hf(flat_vars, mesh, d["a"], d["k"], d["v"], mult).nonzeros())


class TinyACustom(_CustomMixin, TinyA):
    pass


class TinyAResCustom(_CustomMixin, TinyARes):
    pass


class TinyAMeshCustom(_CustomMixin, TinyAMesh):
    pass


MODELS = {
    "A": (TinyA, lambda ns, x, u, m, p: math_a(ns, x, u, m, p, False)),
    "AR": (TinyARes, lambda ns, x, u, m, p: math_a(ns, x, u, m, p, False)),
    "AM": (TinyAMesh, lambda ns, x, u, m, p: math_a(ns, x, u, m, p, True)),
    "AC": (TinyACustom, lambda ns, x, u, m, p: math_a(ns, x, u, m, p, False)),
    "ARC": (TinyAResCustom, lambda ns, x, u, m, p: math_a(ns, x, u, m, p, False)),
    "AMC": (TinyAMeshCustom, lambda ns, x, u, m, p: math_a(ns, x, u, m, p, True)),
    "B": (TinyB, math_b),
    "L": (TinyL, math_l),
    "N": (TinyN, math_n),
    "K": (TinyK, math_k),
    "C": (TinyC, math_c),
}


def plain_params(tree) -> dict:
    """Nested plain dictionary of a parameter tree (reference representation)."""
    d = tree.to_dict() if hasattr(tree, "to_dict") else tree
    out = dict(d["data"])
    for n, c in d["children"].items():
        out[n] = plain_params(c)
    return out
