"""C24: vehicle, tire, aero and kinematics models against an independent reference."""
import itertools

import numpy as np

from mc import libmodels as LM
from mc import ref as R

CHECK = dict(
    id="C24",
    level="exploration",
    technique="exhaustive enumeration of operating points x single parameter departures per model on the real models, each evaluation compared in all "
    "outputs with an independently written reference of the stated equations, with geometry and rigid-body identities and with the mirrored operating point",
    rule="per model: all points of a grid over the operating point x {nominal, every single parameter changed}; all submodel choices; wheels with four "
    "different tires; numpy on all, casadi and jax on a sub-grid; a case is one evaluation",
    assumptions=["the equations are those stated in the model's documentation (Magic Formula 5.2 without turn slip, pressure and low-speed terms)"],
    note="All grid points x all single parameter departures; larger grids and pairs of submodels in thorough.",
)
CORNERS = ("fl", "fr", "rl", "rr")


# ---------------------------------------------------------------- reference equations
def mf52(p, Fz, kappa, alpha, vx, gamma, moments=True):
    """Magic Formula 5.2, forces and moments."""
    sgn, at, sin, cos = np.sign, np.arctan, np.sin, np.cos

    def magic(D, C, B, E, x, f):
        return D * f(C * at(B * x - E * (B * x - at(B * x))))

    F0 = p["LFZO"] * p["FNOMIN"]
    df = Fz / F0 - 1
    # longitudinal
    Cx = p["LCX"] * p["PCX1"]
    Dx = Fz * p["LMUX"] * (p["PDX1"] + p["PDX2"] * df) * (1 - p["PDX3"] * gamma * gamma)
    Kxk = p["LKX"] * Fz * np.exp(p["PKX3"] * df) * (p["PKX1"] + p["PKX2"] * df)
    kx = kappa + p["LHX"] * (p["PHX1"] + p["PHX2"] * df)
    Ex = np.minimum(p["LEX"] * (p["PEX1"] + df * (p["PEX2"] + df * p["PEX3"])) * (1 - p["PEX4"] * sgn(kx)), 1)
    Fx0 = magic(Dx, Cx, Kxk / (Cx * Dx + p["epsilonx"] * sgn(Dx)), Ex, kx, sin) + Fz * p["LVX"] * p["LMUX"] * (p["PVX1"] + p["PVX2"] * df)
    Bxa = p["LXAL"] * p["RBX1"] * cos(at(p["RBX2"] * kappa))
    Exa = np.minimum(p["REX1"] + p["REX2"] * df, 1)
    Gxa = magic(1, p["RCX1"], Bxa, Exa, alpha + p["RHX1"], cos) / magic(1, p["RCX1"], Bxa, Exa, p["RHX1"], cos)
    Fx = Fx0 * Gxa
    # lateral
    Cy = p["LCY"] * p["PCY1"]
    muy = p["LMUY"] * (p["PDY1"] + p["PDY2"] * df) * (1 - p["PDY3"] * gamma * gamma)
    Dy = Fz * muy
    Kya = p["LKY"] * p["PKY1"] * F0 * sin(2 * at(Fz / (F0 * p["PKY2"]))) * (1 - p["PKY3"] * np.abs(gamma))
    SVy = Fz * p["LMUY"] * (p["LVY"] * (p["PVY1"] + p["PVY2"] * df) + gamma * (p["PVY3"] + p["PVY4"] * df))
    SHy = p["LHY"] * (p["PHY1"] + p["PHY2"] * df) + p["PHY3"] * gamma
    ay = alpha + SHy
    Ey = np.minimum(p["LEY"] * (p["PEY1"] + p["PEY2"] * df) * (1 - sgn(ay) * (p["PEY3"] + p["PEY4"] * gamma)), 1)
    By = Kya / (Cy * Dy + p["epsilony"] * sgn(Dy))
    Fy0 = magic(Dy, Cy, By, Ey, ay, sin) + SVy
    SVyk = p["LVYKA"] * Dy * (p["RVY1"] + p["RVY2"] * df + p["RVY3"] * gamma) * cos(at(p["RVY4"] * alpha)) * sin(p["RVY5"] * at(p["RVY6"] * kappa))
    SHyk = p["RHY1"] + p["RHY2"] * df
    Eyk = np.minimum(p["REY1"] + p["REY2"] * df, 1)
    Byk = p["LYKA"] * p["RBY1"] * cos(at(p["RBY2"] * (alpha - p["RBY3"])))
    Gyk = magic(1, p["RCY1"], Byk, Eyk, kappa + SHyk, cos) / magic(1, p["RCY1"], Byk, Eyk, SHyk, cos)
    Fy = Gyk * Fy0 + SVyk
    out = dict(Fx=Fx, Fy=Fy, Kxk=Kxk, Gxa=Gxa, Kya=Kya, Gyk=Gyk, GSum=np.hypot(Gyk, Gxa), Mx=0.0, My=0.0, Mz=0.0)
    if not moments:
        return out
    R0, Fn = p["UNLOADED_RADIUS"], p["FNOMIN"]
    out["Mx"] = R0 * Fz * p["LMX"] * (p["QSX1"] * p["LVMX"] - p["QSX2"] * gamma + p["QSX3"] * Fy / Fn)
    v = vx / p["LONGVL"]
    out["My"] = -R0 * Fz * p["LMY"] * (p["QSY1"] + p["QSY2"] * Fx / Fn + p["QSY3"] * v + p["QSY4"] * v**4)
    K = Kya + p["epsilonk"] * sgn(Kya)
    ar = alpha + SHy + SVy / K
    a_t = alpha + p["QHZ1"] + p["QHZ2"] * df + gamma * (p["QHZ3"] + p["QHZ4"] * df)
    eq = lambda a: sgn(a) * at(np.sqrt(np.tan(a)**2 + (Kxk * kappa / K)**2))  # noqa: E731
    Bt = p["LKY"] / p["LMUY"] * (p["QBZ1"] + df * (p["QBZ2"] + df * p["QBZ3"])) * (1 + p["QBZ4"] * gamma + p["QBZ5"] * np.abs(gamma))
    Ct = p["QCZ1"]
    Et = (p["QEZ1"] + df * (p["QEZ2"] + df * p["QEZ3"])) * (1 + (p["QEZ4"] + p["QEZ5"] * gamma) * 2 / np.pi * at(Bt * Ct * a_t))
    Dt = Fz * R0 / F0 * p["LTR"] * (p["QDZ1"] + p["QDZ2"] * df) * (1 + gamma * (p["QDZ3"] + gamma * p["QDZ4"]))
    cosp = vx / (np.sqrt(vx**2 + (vx * np.tan(alpha))**2) + p["epsilonv"])
    trail = p["LFZO"] * magic(Dt, Ct, Bt, Et, eq(a_t), cos) * cosp
    Dr = Fz * R0 * p["LMUY"] * sgn(vx) * cos(alpha) * (p["LRES"] * (p["QDZ6"] + p["QDZ7"] * df) + gamma * (p["QDZ8"] + p["QDZ9"] * df))
    Br = p["QBZ9"] * p["LKY"] / p["LMUY"] + p["QBZ10"] * By * Cy
    arm = R0 * p["LS"] * (p["SSZ1"] + p["SSZ2"] * Fy / Fn + gamma * (p["SSZ3"] + p["SSZ4"] * df))
    out["Mz"] = -trail * (Fy - SVyk) + Dr * cos(at(Br * eq(ar))) + arm * Fx
    return out


def perantoni(p, Fz, kappa, alpha, **_):
    w = (Fz - p["Fz1"]) / (p["Fz2"] - p["Fz1"])
    mix = lambda n: (1 - w) * p[n + "1"] + w * p[n + "2"]  # noqa: E731
    k, a = kappa / mix("kappa"), alpha / mix("alpha")
    rho = np.sqrt(k * k + a * a + 1e-6)
    mu = {c: mix("mu" + c) * np.sin(p["Q" + c] * np.arctan(np.pi * rho / (2 * np.arctan(p["Q" + c])))) for c in "xy"}
    return dict(Fx=mu["x"] * Fz * k / rho, Fy=-mu["y"] * Fz * a / rho, Mx=0.0, My=0.0, Mz=0.0)


def aero_ref(kind, p, x):
    x = np.array([x["front_ride_height"], x["rear_ride_height"], x["yaw"]])
    if kind == "ConstAero":
        return {n: p[n] for n in ("Cx", "Cy", "Cz")}
    if kind == "GPAero":
        y = [sum(p["alpha"][o, i] * np.exp(-sum((p["gp_points"][i, j] - x[j])**2 for j in range(3))) for i in range(p["gp_points"].shape[0])) for o in range(3)]
    else:
        y = x
        for i in range(sum(n.startswith("weights_layer_") for n in p)):
            W = p[f"weights_layer_{i}"]
            y = np.array([np.tanh(sum(W[r, c] * y[c] for c in range(len(y)))) for r in range(W.shape[0])])
    return dict(zip(("Cx", "Cy", "Cz"), y))


def vehicle(p, tires, aero, s, u):
    """Planar rigid body on four wheels. tires[c](Fz, kappa, alpha, vx, gamma) -> forces in the wheel frame of a left-hand wheel."""
    m, h, a, b = p["vehicle_mass"], p["cog_height"], p["cog_to_fa"], p["cog_to_ra"]
    L = a + b
    q = 0.5 * p["air_density"] * (s["vx"]**2 + s["vy"]**2)
    C = aero(dict(front_ride_height=s["vx"], rear_ride_height=s["vy"], yaw=s["yaw_rate"]))
    W = m * p["gravity"] + q * C["Cz"]
    dlat = {"f": u["ay"] * m * h * p["mech_balance"] / p["track_front"], "r": u["ay"] * m * h * (1 - p["mech_balance"]) / p["track_rear"]}
    dlon = u["ax"] * m * h / (2 * L)
    delta = u["steer"] * p["max_steer_angle"]
    wl, wr = s["wheel_speed_rl"], s["wheel_speed_rr"]
    # T_l w_l + T_r w_r = P and T_l - T_r = -kd (w_l - w_r)
    T = np.linalg.solve([[wl, wr], [1.0, -1.0]], [u["throttle"] * p["max_power"], -p["kd"] * (wl - wr)])
    drive = dict(fl=0.0, fr=0.0, rl=T[0], rr=T[1])
    out, Fsum, Mz, sd = {}, np.array([-q * C["Cx"], 0.0]), 0.0, {}
    for c in CORNERS:
        front, left = c[0] == "f", c[1] == "l"
        side = 1.0 if left else -1.0
        x, y = (a if front else -b), side * p["track_front" if front else "track_rear"] / 2
        Fz = W / 2 * (b if front else a) / L - side * dlat[c[0]] + (-dlon if front else dlon)
        ang = delta if front else 0.0
        v = np.array([s["vx"] - s["yaw_rate"] * y, s["vy"] + s["yaw_rate"] * x])
        e1, e2 = np.array([np.cos(ang), np.sin(ang)]), np.array([-np.sin(ang), np.cos(ang)])
        vw = np.array([v @ e1, v @ e2])
        om = s["wheel_speed_" + c]
        kappa = om * p["rolling_radius"] / s["vx"] - 1
        alpha = np.arctan(vw[1] / vw[0])
        t = tires[c](Fz=Fz, kappa=kappa, alpha=side * alpha, vx=vw[0], gamma=0.0)
        out["tire_" + c] = t
        Fw = np.array([t["Fx"], side * t["Fy"]])
        F = Fw[0] * e1 + Fw[1] * e2
        Fsum = Fsum + F
        Mz += x * F[1] - y * F[0]
        brake = u["brake"] * p["max_total_brake_torque"] * (p["brake_balance"] if front else 1 - p["brake_balance"]) / 2
        sd["wheel_speed_" + c] = (drive[c] - brake - p["rolling_radius"] * Fw[0]) / p["wheel_inertia"]
        out.update({f"Fx_tire_{c}": F[0], f"Fy_tire_{c}": F[1], f"Fz_tire_{c}": Fz, f"slip_ratio_{c}": kappa, f"slip_angle_{c}": alpha})
    ax, ay = Fsum / m
    sd.update(vx=ax + s["yaw_rate"] * s["vy"], vy=ay - s["yaw_rate"] * s["vx"], yaw_rate=Mz / p["Iz"])
    out.update(ax=ax, ay=ay, drive_torque_rl=T[0], drive_torque_rr=T[1], res_ax=ax - u["ax"], res_ay=ay - u["ay"], aero=C)
    return sd, out


# ---------------------------------------------------------------- enumeration
def units(tier):
    q = tier == "quick"
    out = [dict(kind="drone", quick=q), dict(kind="kinematics", quick=q), dict(kind="perantoni", quick=q)]
    out += [dict(kind="mf52", quick=q, part=i, parts=8) for i in range(8)]
    out += [dict(kind="tirefiles"), dict(kind="aero", quick=q), dict(kind="layers")]
    combos = list(itertools.product(("PerantoniTire", "MF52"), ("ConstAero", "GPAero", "MLPAero")))
    for t, a in combos:
        out += [dict(kind="vehicle", tire=t, aero=a, quick=q, part=i, parts=2) for i in range(2)]
    out += [dict(kind="ontrack", tire=t, aero=a, quick=q) for t, a in combos]
    out += [dict(kind="mirror", tire=t, quick=q) for t in ("PerantoniTire", "MF52")]
    out += [dict(kind="backends", backend=b, quick=q) for b in ("casadi", "jax")]
    return out


def run_unit(unit, rec):
    globals()["run_" + unit["kind"]](unit, rec)


def same(got, want, rec, key, msg, rtol=1e-9):
    rec.check(set(got) == set(want), key, lambda: f"{msg}: names {sorted(set(got) ^ set(want))} differ")
    for n in want:
        w = np.asarray(want[n], float)
        rec.close(np.broadcast_to(np.asarray(got[n], float), w.shape), w, f"{key}:{n}", f"{msg}: {n}", rtol=rtol, atol=1e-9 * (1 + np.max(np.abs(w))))


def grid(**axes):
    """dict of flattened arrays of all combinations."""
    g = np.meshgrid(*axes.values(), indexing="ij")
    return {n: a.ravel().astype(float) for n, a in zip(axes, g)}


def departures(p):
    """Nominal, then each scalar parameter changed."""
    yield None, p
    for n, v in p.items():
        if np.ndim(v) == 0:
            for f, o in ((1.37, 0.0), (1.0, 0.061 * (1 + abs(v)))):
                yield n, {**p, n: v * f + o}


def with_params(m, p):
    tree = m.get_recursive_params()
    for n, v in p.items():
        tree.set_param(n, v)
    m.set_recursive_params(tree)
    return m


def run_drone(unit, rec):
    from lumos.models.drone_model import DroneModel

    k = (-2.0, -0.4, 0.0, 0.7, 3.0)
    g = grid(x=(0.0, 5.0), x_dot=k[::2], z=(0.0, -3.0), z_dot=k[1::2], theta=k, f=(0.0, 4.0, 11.0), omega=k)
    for gr in (9.81, 1.62, 0.0):
        rec.at(dict(gravity=gr))
        r = with_params(DroneModel(), dict(gravity=gr)).forward({n: g[n] for n in ("x", "x_dot", "z", "z_dot", "theta")}, {n: g[n] for n in ("f", "omega")}, 0.0)
        th = g["theta"]
        same(r.states_dot, dict(x=g["x_dot"], z=g["z_dot"], x_dot=g["f"] * np.sin(th), z_dot=g["f"] * np.cos(th) - gr, theta=g["omega"]), rec, "drone", "drone")
        same(r.outputs, dict(sin_theta=np.sin(th), f_omega=g["f"] * g["omega"]), rec, "drone", "drone outputs")
        rec.nontrivial(("drone", gr))
        rec.outcome("points", len(th))


def run_kinematics(unit, rec):
    from lumos.models.kinematics import TrackPosition2D

    e = (-1.1, -0.3, 0.0, 0.2, 0.9)
    g = grid(n=(-4.0, -0.5, 0.0, 1.5, 5.0), eta=e, vx=(8.0, 31.0, 70.0), vy=(-6.0, 0.0, 2.5), yaw_rate=(-0.8, 0.0, 0.35), track_curvature=(-0.11, -0.01, 0.0, 0.004, 0.13),
             track_heading=(-2.0, 0.0, 4.0))
    g["time"] = 0.1 * np.arange(len(g["n"]))
    rec.at("all grid points")
    r = TrackPosition2D().forward({n: g[n] for n in ("time", "n", "eta")}, {n: g[n] for n in ("vx", "vy", "yaw_rate", "track_curvature", "track_heading")}, 3.0)
    k, n, th, eta = g["track_curvature"], g["n"], g["track_heading"], g["eta"]
    # geometry: the position c(s) + n N(s) moves with the body velocity (T' = k N, N' = -k T), the body turns at the yaw rate
    T, N = np.array([np.cos(th), np.sin(th)]), np.array([-np.sin(th), np.cos(th)])
    dt = np.asarray(r.states_dot["time"])
    ds = 1 / dt
    dn, deta = np.asarray(r.states_dot["n"]) * ds, np.asarray(r.states_dot["eta"]) * ds
    vel = T * ds * (1 - n * k) + N * dn
    psi = th + eta
    world = np.array([g["vx"] * np.cos(psi) - g["vy"] * np.sin(psi), g["vx"] * np.sin(psi) + g["vy"] * np.cos(psi)])
    rec.close(vel, world, "velocity", "motion of the track position against the body velocity", rtol=1e-9, atol=1e-9 * 80)
    rec.close(deta + k * ds, g["yaw_rate"], "yaw", "turning of the body against the yaw rate", rtol=1e-9, atol=1e-8)
    rec.close(np.asarray(r.outputs["yaw_angle"]), psi, "yaw_angle", "yaw angle", rtol=1e-12, atol=1e-12)
    rec.close(np.asarray(r.outputs["curvature"]), k, "curvature", "curvature", rtol=1e-12, atol=1e-12)
    rec.check(set(r.states_dot) == {"time", "n", "eta"} and set(r.outputs) == {"yaw_angle", "curvature"}, "names", "names of the kinematics results")
    rec.nontrivial("kinematics")
    rec.outcome("points", len(n))
    # a vehicle following a line parallel to a circular track stays on it
    for R_, off, v in itertools.product((30.0, -80.0, 500.0), (-3.0, 0.0, 4.0), (5.0, 60.0)):
        rec.at(dict(radius=R_, offset=off, speed=v))
        r = TrackPosition2D().forward(dict(time=0.0, n=off, eta=0.0), dict(vx=v, vy=0.0, yaw_rate=v / (R_ - off), track_curvature=1 / R_, track_heading=0.3), 0.0)
        rec.close(float(r.states_dot["n"]), 0.0, "parallel", "offset of a parallel line", atol=1e-12)
        rec.close(float(r.states_dot["eta"]), 0.0, "parallel", "heading error of a parallel line", atol=1e-12)
        rec.close(float(r.states_dot["time"]) * v, (R_ - off) / R_, "parallel", "time per metre of centreline", rtol=1e-12)


def tire_points(quick):
    sl = (-0.6, -0.12, -0.03, 0.0, 0.011, 0.08, 0.35) if quick else (-0.9, -0.6, -0.25, -0.12, -0.06, -0.03, -0.004, 0.0, 0.002, 0.011, 0.03, 0.08, 0.17, 0.35, 0.8)
    return grid(Fz=(400.0, 2900.0, 6000.0, 9416.6, 17000.0), kappa=sl, alpha=sl, vx=(3.0, 52.0), gamma=(-0.15, 0.0, 0.04))


def run_perantoni(unit, rec):
    from lumos.models.tires.perantoni import PerantoniTire

    g = tire_points(unit["quick"])
    for n, p in departures(PerantoniTire.get_default_params()):
        rec.at(dict(parameter=n, params=p))
        r = with_params(PerantoniTire(), p).forward(g)
        same(r.outputs, perantoni(p, **g), rec, "perantoni", f"Perantoni tire with {n} changed")
        rec.nontrivial(("perantoni", n, p.get(n)))
        rec.outcome("points", len(g["Fz"]))


def run_mf52(unit, rec):
    from lumos.models.tires.pacejka import MF52

    g = tire_points(unit["quick"])
    base = MF52.get_default_params()
    bases = [base, {n: v * (1 + 0.21 * np.sin(3.1 * i)) + (0.02 * np.cos(1.9 * i) if abs(v) < 1e-2 and not n.startswith("eps") else 0.0) for i, (n, v) in enumerate(base.items())}]
    todo = [(b, n, p) for b, bp in enumerate(bases) for n, p in departures(bp)]
    for i, (b, n, p) in enumerate(todo):
        if i % unit["parts"] != unit["part"]:
            continue
        for opt in (False, True):
            rec.at(dict(base=b, parameter=n, value=p.get(n), opt_mode=opt))
            r = with_params(MF52(opt_mode=opt), p).forward(g)
            same(r.outputs, mf52(p, moments=not opt, **g), rec, "mf52", f"MF52 with {n} changed (base {b}, opt_mode {opt})", rtol=1e-7)
            rec.outcome("points", len(g["Fz"]))
        rec.nontrivial((b, n, p.get(n)))


def run_tirefiles(unit, rec):
    """The tire files of the repository give the tire they describe."""
    import glob
    import os

    import lumos
    from lumos.models.tires.pacejka import MF52
    from lumos.models.tires.utils import create_params_from_tir_file

    g = tire_points(True)
    for f in sorted(glob.glob(os.path.join(os.path.dirname(lumos.__file__), "../data/tires/*.tir"))):
        rec.at(os.path.basename(f))
        p = create_params_from_tir_file(f)
        q = {**MF52.get_default_params(), **p}
        r = with_params(MF52(opt_mode=False), p).forward(g)
        same(r.outputs, mf52(q, **g), rec, "tirefile", f"tire of {os.path.basename(f)}", rtol=1e-7)
        rec.nontrivial(f)


def run_aero(unit, rec):
    from lumos.models.composition import ModelMaker

    LM.register()
    x = (-1.2, -0.3, 0.0, 0.4, 1.7)
    for kind in ("ConstAero", "GPAero", "MLPAero"):
        base = dict(ConstAero=dict(Cx=0.6, Cy=0.1, Cz=1.9), GPAero=LM.GP, MLPAero=LM.mlp_weights())[kind]
        changes = [base]
        for n, v in base.items():
            v = np.asarray(v, float)
            for i in range(v.size):
                if unit["quick"] and v.size > 20 and i % 3:
                    continue
                w = v.copy()
                w.flat[i] += 0.37
                changes.append({**base, n: w if v.ndim else float(w)})
        for k, p in enumerate(changes):
            m = with_params(ModelMaker.make_model_from_name(kind), p)
            pts = list(itertools.product(x, repeat=3)) if k == 0 else [(0.3, -0.2, 0.7), (-0.9, 0.5, 0.1)]
            for pt in pts:
                q = dict(zip(("front_ride_height", "rear_ride_height", "yaw"), pt))
                rec.at(dict(aero=kind, change=k, point=q))
                same(m.forward(q).outputs, aero_ref(kind, p, q), rec, kind, kind)
                rec.outcome("points")
            rec.nontrivial((kind, k))


def run_layers(unit, rec):
    """The layers of the neural aero model are taken by their number: any order of giving them, any number of layers, any evaluation."""
    import jax

    import lumos.numpy as lnp
    from lumos.models.aero.aero import MLPAero
    from lumos.models.tree_utils import ParameterTree

    LM.register()
    pts = [(0.3, -0.2, 0.7), (-0.9, 0.5, 0.1)]
    for layers in (1, 2, 3, 4, 9, 10, 11, 12, 13):
        w = {}
        for i in range(layers + 1):
            o = 3 if i == layers else 2
            w[f"weights_layer_{i}"] = 0.8 * R.generic(o * (2 if i else 3), 30 + 7 * layers + i).reshape(o, 2 if i else 3)
        names = list(w) + ["air_density"]
        full = {**w, "air_density": 1.225}
        if layers < 3:
            orders = list(itertools.permutations(names))
        else:
            orders = [names, names[::-1], sorted(names), sorted(names)[::-1], names[1::2] + names[::2]] + [names[k:] + names[:k] for k in range(1, len(names))]
        for order in orders:
            p = {n: full[n] for n in order}
            tree = ParameterTree.from_dict(dict(data=p, children={}))
            for pt in pts:
                q = dict(zip(("front_ride_height", "rear_ride_height", "yaw"), pt))
                want = aero_ref("MLPAero", full, q)
                rec.at(dict(layers=layers, order=order, point=q))
                m = MLPAero()
                m.set_recursive_params(tree)
                same(m.forward(q).outputs, want, rec, "layers", "MLPAero")
                flat, unravel = tree.tree_ravel()
                m = MLPAero()
                m.set_recursive_params(unravel(flat))
                same(m.forward(q).outputs, want, rec, "layers", "MLPAero with parameters from a vector")
                rec.transition(2)
                if order in (orders[0], orders[-1], orders[len(orders) // 2]) and pt == pts[0]:
                    m = MLPAero()
                    vec = np.array([q[n] for n in m.names.inputs])

                    def f(v, t):
                        m.set_recursive_params(t)
                        return m.forward_with_arrays(v).outputs

                    with lnp.use_backend("jax"):
                        out = np.asarray(jax.jit(f)(vec, tree))
                    same(dict(zip(m.names.outputs, out)), want, rec, "layers", "MLPAero with traced parameters", rtol=1e-5)
                    rec.transition()
                rec.outcome("points")
            rec.state((layers, tuple(order)))
            rec.trace()
            rec.nontrivial((layers, tuple(order)))


def tire_fn(kind, p):
    return (lambda **x: mf52(p, moments=False, **x)) if kind == "MF52" else (lambda **x: perantoni(p, **x))


def different_tires(kind):
    """Four different parameter sets."""
    from lumos.models.tires.pacejka import MF52
    from lumos.models.tires.perantoni import PerantoniTire

    out = {}
    for i, c in enumerate(CORNERS):
        p = dict((MF52 if kind == "MF52" else PerantoniTire).get_default_params())
        names = ("LMUX", "LMUY", "LKY", "LKX", "LVX") if kind == "MF52" else ("mux1", "muy1", "kappa2", "alpha1")
        for j, n in enumerate(names):
            p[n] = float(p[n]) * (1 + 0.04 * (i + 1) * (j + 1) * (-1) ** j * 0.5)
        out[c] = p
    return out


def build(name, kind, aero, p=None, tires=None, aero_params=None):
    """The model with the given parameters set; returns model and the parameter dictionaries."""
    m = LM.make_model(name, kind, aero)
    pre = "vehicle." if name == "SimpleVehicleOnTrack" else ""
    tree = m.get_recursive_params()
    for n, v in (p or {}).items():
        tree.set_param(pre + n, v)
    for c, t in (tires or {}).items():
        for n, v in t.items():
            tree.set_param(f"{pre}tire_{c}.{n}", v)
    for n, v in (aero_params or {}).items():
        tree.set_param(f"{pre}aero.{n}", v)
    m.set_recursive_params(tree)
    return m


def aero_params(aero):
    return dict(ConstAero=dict(Cx=0.7, Cy=0.2, Cz=2.1), GPAero=LM.GP, MLPAero=LM.mlp_weights())[aero]


def vehicle_points(quick):
    base = LM.nominal("SimpleVehicle")
    pts = [LM.nominal("SimpleVehicle", k) for k in range(3)]
    alts = dict(vx=(9.0, 71.0), vy=(-2.0, 0.0), yaw_rate=(-0.5, 0.0, 0.4), throttle=(0.0, 1.0), brake=(0.0, 0.8), steer=(-0.6, 0.0, 0.3), ax=(-12.0, 0.0), ay=(-9.0, 0.0, 14.0),
                wheel_speed_fl=(90.0,), wheel_speed_fr=(100.0,), wheel_speed_rl=(80.0, 160.0), wheel_speed_rr=(95.0, 124.0))

    def put(s, u, n, v):
        s, u = dict(s), dict(u)
        (s if n in s else u)[n] = v
        return s, u

    for n, vs in alts.items():
        for v in vs:
            pts.append((*put(base[0], base[1], n, v), 0.0))
    for n1, n2 in itertools.combinations(alts, 2):
        for v1, v2 in itertools.product(alts[n1], alts[n2]):
            s, u = put(*put(base[0], base[1], n1, v1), n2, v2)
            pts.append((s, u, 0.0))
    # straight line running
    v = 30.0
    pts.append((dict(vx=v, vy=0.0, yaw_rate=0.0, **{f"wheel_speed_{c}": v / 0.33 for c in CORNERS}), dict(throttle=0.0, brake=0.0, steer=0.0, ax=0.0, ay=0.0), 0.0))
    return pts


VEHICLE = ("gravity vehicle_mass Iz cog_to_fa cog_to_ra cog_height mech_balance track_front track_rear rolling_radius kd air_density aero_balance max_steer_angle "
           "max_power max_total_brake_torque brake_balance wheel_inertia").split()


def vehicle_params():
    from lumos.models.vehicles.simple_vehicle import SimpleVehicle

    p = {n: float(v) for n, v in SimpleVehicle.get_default_params().items() if np.ndim(v) == 0}
    p.update(cog_to_ra=1.55, mech_balance=0.56, track_rear=1.38)  # no accidental symmetry
    return p


def run_vehicle(unit, rec):
    kind, aero = unit["tire"], unit["aero"]
    tires, ap, base = different_tires(kind), aero_params(aero), vehicle_params()
    fns = {c: tire_fn(kind, t) for c, t in tires.items()}
    pts = vehicle_points(unit["quick"])
    todo = list(departures(base))
    for i, (n, p) in enumerate(todo):
        if i % unit["parts"] != unit["part"]:
            continue
        m = build("SimpleVehicle", kind, aero, p, tires, ap)
        sel = pts if n is None or not unit["quick"] else pts[:3] + pts[3 + i % 7::7]
        for s, u, _ in sel:
            rec.at(dict(parameter=n, value=p.get(n), states=s, inputs=u))
            check_vehicle(m.forward(s, u, 0.0), s, u, p, fns, aero, ap, rec)
            rec.outcome("points")
        rec.nontrivial((n, p.get(n)))


def nested(out):
    """Reference outputs with the names of the model: nested ones joined with a dot."""
    flat = {}
    for n, v in out.items():
        if isinstance(v, dict):
            flat.update({f"{n}.{k}": w for k, w in v.items()})
        else:
            flat[n] = v
    return flat


def check_vehicle(r, s, u, p, fns, aero, ap, rec, key="vehicle"):
    sd, out = vehicle(p, fns, lambda x: aero_ref(aero, ap, x), s, u)
    same(r.states_dot, sd, rec, key, "state derivatives", rtol=1e-8)
    same(r.outputs, nested(out), rec, key, "outputs", rtol=1e-8)
    same({n.split(".")[-1]: v for n, v in (r.residuals or {}).items()} if r.residuals else {n: r.outputs[n] for n in ("res_ax", "res_ay")},
         {n: out[n] for n in ("res_ax", "res_ay")}, rec, key, "residuals", rtol=1e-8)


def run_ontrack(unit, rec):
    kind, aero = unit["tire"], unit["aero"]
    tires, ap, p = different_tires(kind), aero_params(aero), vehicle_params()
    fns = {c: tire_fn(kind, t) for c, t in tires.items()}
    m = build("SimpleVehicleOnTrack", kind, aero, p, tires, ap)
    tracks = list(itertools.product((-2.0, 1.3), (-0.2, 0.1), (-0.02, 0.0, 0.015)))
    for i, (s, u, _) in enumerate(vehicle_points(unit["quick"])[::1 if not unit["quick"] else 3]):
        for j, (n, eta, k) in enumerate(tracks):
            if i and (i + j) % 6 and unit["quick"]:
                continue
            S = {**s, "time": 4.0, "n": n, "eta": eta}
            U = {**u, "track_curvature": k, "track_heading": 0.7}
            rec.at(dict(states=S, inputs=U))
            r = m.forward(S, U, 2.0)
            sd, out = vehicle(p, fns, lambda x: aero_ref(aero, ap, x), s, u)
            ds = (s["vx"] * np.cos(eta) - s["vy"] * np.sin(eta)) / (1 - n * k)
            want = {q: v / ds for q, v in sd.items()}
            want.update(time=1 / ds, n=(s["vx"] * np.sin(eta) + s["vy"] * np.cos(eta)) / ds, eta=s["yaw_rate"] / ds - k)
            same(r.states_dot, want, rec, "ontrack", "derivatives with respect to distance", rtol=1e-8)
            o = {"vehicle." + q: v for q, v in nested(out).items()}
            o.update({"kinematics.yaw_angle": eta + 0.7, "kinematics.curvature": k})
            same(r.outputs, o, rec, "ontrack", "outputs", rtol=1e-8)
            rec.outcome("points")
    rec.nontrivial((kind, aero))


def run_mirror(unit, rec):
    """Mirrored operating points of a symmetric car give mirrored results."""
    kind = unit["tire"]
    p = vehicle_params()
    m = build("SimpleVehicleOnTrack", kind, "ConstAero", p)
    other = dict(fl="fr", fr="fl", rl="rr", rr="rl")

    def flip(d, odd):
        out = {}
        for n, v in d.items():
            for c in CORNERS:
                if n.endswith("_" + c):
                    n = n[:-2] + other[c]
                    break
                if f"tire_{c}." in n:
                    n = n.replace(f"tire_{c}.", f"tire_{other[c]}.")
                    break
            out[n] = -v if odd(n) else v
        return out

    odd_s = lambda n: n in ("vy", "yaw_rate", "n", "eta")  # noqa: E731
    odd_u = lambda n: n in ("steer", "ay", "track_curvature", "track_heading")  # noqa: E731

    def odd_o(n):
        n = n.split(".", 1)[1]
        return n in ("ay", "res_ay", "yaw_angle", "curvature") or n.startswith(("Fy_tire", "slip_angle"))

    for s, u, _ in vehicle_points(unit["quick"])[::1 if not unit["quick"] else 3]:
        S = {**s, "time": 4.0, "n": 1.3, "eta": 0.1}
        U = {**u, "track_curvature": 0.013, "track_heading": 0.4}
        rec.at(dict(states=S, inputs=U))
        r, q = m.forward(S, U, 2.0), m.forward(flip(S, odd_s), flip(U, odd_u), 2.0)
        same(flip(q.states_dot, odd_s), r.states_dot, rec, "mirror", "mirrored derivatives", rtol=1e-9)
        same(flip(q.outputs, odd_o), r.outputs, rec, "mirror", "mirrored outputs", rtol=1e-9)
        rec.outcome("points")
    rec.nontrivial(kind)


def run_backends(unit, rec):
    """The same equations on the symbolic and the jax backend."""
    import lumos.numpy as lnp

    q = unit["quick"]
    for kind, aero in (("MF52", "GPAero"), ("PerantoniTire", "MLPAero")):
        tires, ap, p = different_tires(kind), aero_params(aero), vehicle_params()
        fns = {c: tire_fn(kind, t) for c, t in tires.items()}
        m = build("SimpleVehicle", kind, aero, p, tires, ap)
        pts = vehicle_points(True)
        S, U = list(pts[0][0]), list(pts[0][1])
        if unit["backend"] == "casadi":
            import casadi as cas

            xs = [cas.MX.sym(n) for n in S + U]
            d = dict(zip(S + U, xs))
            with lnp.use_backend("casadi"):
                r = m.forward({n: d[n] for n in S}, {n: d[n] for n in U}, 0.0)
            on, sn = list(r.outputs), list(r.states_dot)
            F = cas.Function("f", xs, [r.states_dot[n] for n in sn] + [r.outputs[n] for n in on])
            f = lambda v: [float(x) for x in F.call(v)]  # noqa: E731
        else:
            import jax

            names = {}

            def g(*v):
                d = dict(zip(S + U, v))
                r = m.forward({n: d[n] for n in S}, {n: d[n] for n in U}, 0.0)
                names["o"], names["s"] = list(r.outputs), list(r.states_dot)
                return [r.states_dot[n] for n in names["s"]] + [r.outputs[n] for n in names["o"]]

            with lnp.use_backend("jax"):
                J = jax.jit(g)
                J(*[pts[0][0][n] for n in S], *[pts[0][1][n] for n in U])
            on, sn = names["o"], names["s"]
            f = lambda v: [float(x) for x in J(*v)]  # noqa: E731
        for s, u, _ in pts[::4 if q else 1]:
            rec.at(dict(backend=unit["backend"], tire=kind, states=s, inputs=u))
            v = f([s[n] for n in S] + [u[n] for n in U])
            sd, out = vehicle(p, fns, lambda x: aero_ref(aero, ap, x), s, u)
            same(dict(zip(sn, v)), sd, rec, "backend", f"{unit['backend']}: derivatives", rtol=1e-7)
            same(dict(zip(on, v[len(sn):])), nested(out), rec, "backend", f"{unit['backend']}: outputs", rtol=1e-7)
            rec.outcome("points")
        rec.nontrivial((unit["backend"], kind))
