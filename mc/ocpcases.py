"""Enumeration of optimal control problems (shared by C01, C02, C04, C08, C10, C18)."""
import itertools

import numpy as np

from mc import ref as R
from mc.models import MODELS, plain_params

SCHEMES = [("ForwardEuler", 2), ("Trapezoidal", 2), ("LGR", 2), ("LGR", 3), ("LGR", 4),
           ("LGRIntegral", 2), ("LGRIntegral", 3), ("LGRIntegral", 4)]
MESHES = {  # interval points; None = uniform
    "1": (1, None), "2": (2, None), "2n": (2, (0.0, 0.3, 1.0)), "3": (3, None), "3n": (3, (0.0, 0.15, 0.75, 1.0)),
    "4n": (4, (0.0, 0.4, 0.5, 0.55, 1.0)),
}
SMALL = list(MESHES)
# more stages than any number of workers, digits or default blocks
MESHES["37n"] = (37, tuple(np.linspace(0, 1, 38) ** 1.5))
MESHES["120"] = (120, None)
CON_OUTPUTS = {"A": [(), ("o1",), ("o2", "o1")], "AR": [(), ("o2",), ("o1", "o2")], "AM": [(), ("o2", "r1")],
               "B": [()], "L": [(), ("y",)], "C": [(), ("right.f", "tot")],
               "N": [(), ("yv", "u", "y")], "K": [(), ("r", "y")]}
CYCLIC = {
    "A": [None, [], ["states.time"], ["inputs.w", "states.time"]],
    "B": [None, [], ["states.time"]],
    "C": [None, [], ["states.time", "inputs.u"]],
    "L": [None, [], ["states.time"]],
    "N": [None, ["states.v", "states.time"], ["inputs.u"]],
    "K": [None, ["states.time"], ["inputs.u"]],
}


def transcription(scheme, ns):
    return (scheme, {"num_stages": ns}) if scheme.startswith("LGR") else (scheme,)


def product(models, backends, schemes, meshes, kinds, condensed, cyc_idx=None, outs_idx=None):
    """Yield case dictionaries."""
    for mk in models:
        base = mk.replace("C", "") if mk in ("AC", "ARC", "AMC") else mk
        outs = CON_OUTPUTS[base]
        cycs = CYCLIC.get(base, CYCLIC["A"])
        for oi, out in enumerate(outs):
            if outs_idx is not None and oi not in outs_idx and oi != len(outs) - 1:
                continue
            for backend, (scheme, ns), mesh, kind, (ci, cyc) in itertools.product(
                backends, schemes, meshes, kinds, list(enumerate(cycs))
            ):
                if cyc_idx is not None and ci not in cyc_idx:
                    continue
                if base == "AM" and kind == "free":
                    continue  # derivative with respect to the mesh is documented as not supported
                if scheme == "ForwardEuler" and condensed and False:
                    continue
                yield dict(model=mk, outs=list(out), backend=backend, scheme=scheme, ns=ns, mesh=mesh,
                           kind=kind, cyclic=cyc, condensed=condensed)


def points(case):
    ni, pts = MESHES[case["mesh"]]
    return np.linspace(0, 1, ni + 1) if pts is None else np.array(pts)


def make_problem(case, model=None, **cfg):
    """The lumos problem of a case."""
    from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP
    from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP

    ni, pts = MESHES[case["mesh"]]
    if model is None:
        params = case.get("params")
        model = MODELS[case["model"]][0](**({"params": params} if params else {}))
    kw = dict(
        num_intervals=ni,
        interval_points=None if pts is None else np.array(pts),
        transcription=transcription(case["scheme"], case["ns"]),
        is_cyclic=case["cyclic"] is not None,
        non_cyclic_vars=list(case["cyclic"] or []),
        is_condensed=case["condensed"],
        backend=case["backend"],
        hessian_approximation="exact",
        con_output_names=tuple(case["outs"]),
        logging_config=None,
    )
    kw.update(cfg)
    cls = ScaledMeshOCP if case["kind"] == "free" else FixedMeshOCP
    conf = cls.get_sim_config(**kw)
    if cls is FixedMeshOCP:
        return cls(model=model, sim_config=conf, mesh_scale=float(case["kind"]))
    return cls(model=model, sim_config=conf)


def names_of(mk, outs):
    base = mk.replace("C", "") if mk in ("AC", "ARC", "AMC") else mk
    st = {"A": ("time", "p", "q"), "AR": ("time", "p", "q"), "AM": ("time", "p", "q"), "B": ("time",), "C": ("time", "p"),
          "L": ("time", "p", "v"), "N": ("v", "time", "vx"), "K": ("time", "p")}
    inp = {"A": ("u", "w"), "AR": ("u", "w"), "AM": ("u", "w"), "B": ("u",), "C": ("u",), "L": ("u",), "N": ("u", "uv", "v"), "K": ("u",)}
    res = {"AR": ("r1",), "AM": ("r1",), "N": ("yv",), "K": ("r",)}
    return dict(states=st[base], inputs=inp[base], con_outputs=tuple(outs), residuals=res.get(base, ()))


def default_params(mk):
    from mc.models import TINY_A_PARAMS

    if mk[0] == "A":
        return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in TINY_A_PARAMS.items()}
    if mk == "B":
        return {"c": 0.8}
    if mk == "L":
        return {}
    if mk == "K":
        return {"z": 0.0, "g": np.array([0.0, 1.5])}
    if mk == "N":
        return {"bb": np.array([0.4, -0.9]), "b": 1.3}
    spring = lambda: {"k": 2.0, "g": np.array([0.1, 0.05])}  # noqa: E731
    return {"m": 1.5, "left": spring(), "right": spring()}


def cyclic_vars(names, non_cyclic):
    allv = [f"states.{n}" for n in names["states"]] + [f"inputs.{n}" for n in names["inputs"]]
    return [v for v in allv if v not in non_cyclic]


def make_ref(case, params=None, pts=None, mesh_scale="case", scales=None, condensed=None):
    names = names_of(case["model"], case["outs"])
    ms = (None if case["kind"] == "free" else float(case["kind"])) if mesh_scale == "case" else mesh_scale
    p = default_params(case["model"])
    if params is not None:
        p = params
    elif case.get("params"):
        p = {**p, **case["params"]}
    return R.RefOCP(
        names, MODELS[case["model"]][1], p, points(case) if pts is None else pts, case["scheme"], case["ns"],
        mesh_scale=ms, cyclic=None if case["cyclic"] is None else cyclic_vars(names, case["cyclic"]),
        condensed=case["condensed"] if condensed is None else condensed, scales=scales,
    )
