"""Library models with independent nominal operating points (shared by C03, C13, C24, C26)."""
import numpy as np

from mc import ref as R


def register():
    """The library registers its models on import of lumos.models."""
    import lumos.models  # noqa: F401


GP = dict(gp_points=R.generic(15, 1).reshape(5, 3) * 0.5, alpha=R.generic(15, 2).reshape(3, 5))


def mlp_weights(dim=4):
    w = {}
    ins, outs = [3, dim, dim], [dim, dim, dim]
    for i, (a, b) in enumerate(zip(ins, outs)):
        w[f"weights_layer_{i}"] = 0.5 * R.generic(a * b, 3 + i).reshape(b, a)
    w["weights_layer_3"] = R.generic(3 * dim, 9).reshape(3, dim)
    return w


VX = dict(vx=40.0, vy=0.3, yaw_rate=0.1, wheel_speed_fl=121.0, wheel_speed_fr=123.0, wheel_speed_rl=124.0, wheel_speed_rr=126.5)
VU = dict(throttle=0.4, brake=0.1, steer=0.05, ax=1.3, ay=4.1)
NOMINAL = {
    "DroneModel": (dict(x=0.3, x_dot=1.1, z=-0.4, z_dot=0.7, theta=0.6), dict(f=11.0, omega=1.7)),
    "TrackPosition2D": (dict(time=2.0, n=1.4, eta=0.12), dict(vx=38.0, vy=-0.8, yaw_rate=0.3, track_curvature=0.013, track_heading=0.9)),
    "SimpleVehicle": (VX, VU),
    "SimpleVehicleOnTrack": ({**VX, "time": 3.0, "n": 1.2, "eta": 0.07}, {**VU, "track_curvature": 0.011, "track_heading": 0.4}),
}


def nominal(name, k=0):
    """(states, inputs, mesh) of operating point k."""
    s, u = NOMINAL[name]
    f = lambda d, o: {n: v * (1 + 0.03 * np.sin(1.7 * (i + 1) * (k + o))) if k else v for i, (n, v) in enumerate(d.items())}  # noqa: E731
    return f(s, 0.0), f(u, 0.5), 17.0 + k


def make_model(name, tire=None, aero=None, floats=False):
    """A library model with the chosen submodels (small GP / MLP parameters).
    floats: turn integer parameters into floats (jax recompiles when a type changes)."""
    model = _make(name, tire, aero)
    if floats:
        tree = model.get_recursive_params()
        for path, v in leaves(tree):
            if np.shape(v) == ():
                tree.set_param(path, float(v))
        model.set_recursive_params(tree)
    return model


def _make(name, tire, aero):
    from lumos.models.composition import ModelMaker

    register()
    if name == "DroneModel":
        from lumos.models.drone_model import DroneModel

        return DroneModel()
    mc = ModelMaker.make_config(name)
    pre = "vehicle." if name == "SimpleVehicleOnTrack" else ""
    if tire:
        for c in ("fl", "fr", "rl", "rr"):
            mc.replace_subtree(f"{pre}tire_{c}", ModelMaker.make_config(tire))
    if aero:
        mc.replace_subtree(f"{pre}aero", ModelMaker.make_config(aero))
    model = ModelMaker.make_model_from_config(mc)
    tree = model.get_recursive_params()
    if aero == "GPAero":
        for n, v in GP.items():
            tree.set_param(f"{pre}aero.{n}", v)
    if aero == "MLPAero":
        for n, v in mlp_weights().items():
            tree.set_param(f"{pre}aero.{n}", v)
    model.set_recursive_params(tree)
    return model


def leaves(tree, prefix=""):
    """[(path, value)] of a parameter tree, through its dictionary form only."""
    d = tree.to_dict() if hasattr(tree, "to_dict") else tree
    out = [(prefix + n, v) for n, v in d["data"].items()]
    for n, c in d["children"].items():
        out += leaves(c, prefix + n + ".")
    return out
