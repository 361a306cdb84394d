"""C20: track geometry over all small centre lines and the repository's track files."""
import glob
import itertools
import os

import numpy as np

from mc import core

CHECK = dict(
    id="C20",
    level="exploration",
    technique="exhaustive enumeration of all small centre lines (sequences of turns and step lengths) and curvature profiles and all "
    "query positions on a grid, on the real track classes, against independently computed geometry and its invariances; plus all "
    "track files of the repository, analytic curves and all column layouts of small files",
    rule="all sequences of (turn, step) over the alphabet up to the length bound x start heading x widths; all query positions: points, "
    "between points, both ends and beyond; a case is one track",
    assumptions=["derivatives along the centre line are second-order differences on uneven points, one-sided at the two ends"],
    note="All centre lines and curvature profiles over the alphabet up to the bound, and every track file.",
)
TURNS = (-1.1, 0.0, 0.25, 0.9)
STEPS = (1.0, 2.5)


def polyline(seq, h0, x0=0.0, y0=0.0):
    xs, ys, h = [x0], [y0], h0
    for turn, step in seq:
        h += turn
        xs.append(xs[-1] + step * np.cos(h))
        ys.append(ys[-1] + step * np.sin(h))
    return np.array(xs), np.array(ys)


def diff_uneven(f, s):
    """Derivative of the parabola through each point and its neighbours; of the line at the ends."""
    d = np.empty(len(f))
    d[0] = (f[1] - f[0]) / (s[1] - s[0])
    d[-1] = (f[-1] - f[-2]) / (s[-1] - s[-2])
    for i in range(1, len(f) - 1):
        a, b = s[i] - s[i - 1], s[i + 1] - s[i]
        d[i] = ((f[i] - f[i - 1]) / a * b + (f[i + 1] - f[i]) / b * a) / (a + b)
    return d


def running_integral(f, s):
    out = [0.0]
    for i in range(1, len(s)):
        out.append(out[-1] + 0.5 * (f[i] + f[i - 1]) * (s[i] - s[i - 1]))
    return np.array(out)


def geometry(x, y):
    s = [0.0]
    for i in range(1, len(x)):
        s.append(s[-1] + float(np.hypot(x[i] - x[i - 1], y[i] - y[i - 1])))
    s = np.array(s)
    dx, dy = diff_uneven(x, s), diff_uneven(y, s)
    ddx, ddy = diff_uneven(dx, s), diff_uneven(dy, s)
    k = (dx * ddy - dy * ddx) / (dx ** 2 + dy ** 2) ** 1.5
    return s, k, float(np.arctan2(dy[0], dx[0])) + running_integral(k, s)


def at(q, s, f):
    if q <= s[0]:
        return f[0]
    for i in range(1, len(s)):
        if q <= s[i]:
            return f[i - 1] + (f[i] - f[i - 1]) * (q - s[i - 1]) / (s[i] - s[i - 1])
    return f[-1]


def check_track(t, s, k, h, left, right, rec, what):
    """All queries of a track against its data."""
    rec.close(t.total_distance, s[-1], "length", f"{what}: total distance", rtol=1e-9)
    mid = 0.5 * (s[1:] + s[:-1])
    far = s[:-1] + 0.9 * np.diff(s)
    qs = np.concatenate([s, mid, far, [-3.0, -1e-9, 0.0, s[-1], s[-1] + 1e-9, s[-1] + 5.0, 10 * s[-1]]])
    if len(qs) > 400:
        qs = np.concatenate([qs[:: len(qs) // 380], qs[-7:]])
    for name, data in (("curvature", k), ("heading", h), ("left_distance", left), ("right_distance", right)):
        want = np.array([at(q, s, data) for q in qs])
        fn = getattr(t, name + "_at")
        rec.close(fn(qs), want, name, f"{what}: {name} along the track", rtol=1e-8, atol=1e-9)
        rec.close([float(fn(float(q))) for q in qs[-9:]], want[-9:], name, f"{what}: {name} at single positions", rtol=1e-8, atol=1e-9)
        rec.close(fn(list(qs[:3])), want[:3], name, f"{what}: {name} of a list", rtol=1e-8, atol=1e-9)
    # continuous heading, and curvature as its rate of change
    fine = np.linspace(0, s[-1], 257)
    hh = np.asarray(t.heading_at(fine))
    bound = np.max(np.abs(k)) * (fine[1] - fine[0]) + 1e-9
    rec.check(bool(np.all(np.abs(np.diff(hh)) <= bound * (1 + 1e-9))), "jump", f"{what}: heading jumps by {np.max(np.abs(np.diff(hh)))}")


def units(tier):
    quick = tier == "quick"
    out = []
    for first in itertools.product(TURNS, STEPS):
        out.append(dict(kind="lines", first=list(first), n=5 if quick else 6))
        out.append(dict(kind="profiles", first=list(first), n=4 if quick else 5))
    for f in range(8):
        out.append(dict(kind="files", part=f))
    out += [dict(kind="curves", n=200 if quick else 2000), dict(kind="constant"), dict(kind="tables")]
    return out


def run_unit(unit, rec):
    dict(lines=run_lines, profiles=run_profiles, files=run_files, curves=run_curves, constant=run_constant, tables=run_tables)[unit["kind"]](unit, rec)


def widths(n, k):
    return 3.0 + 0.5 * np.sin(1.0 + np.arange(n) + k), 4.0 + 0.25 * np.cos(2.0 * np.arange(n) + k)


def run_lines(unit, rec):
    from lumos.models.tracks import RaceTrack, cartesian_to_curvilinear, curvilinear_to_cartesian

    j = 0
    for n in range(1, unit["n"] + 1):
        for rest in itertools.product(itertools.product(TURNS, STEPS), repeat=n - 1):
            seq = [tuple(unit["first"])] + list(rest)
            if len(seq) < 2:
                continue
            j += 1
            h0 = (0.3, 2.9, -2.0, 1.6)[j % 4]
            rec.at(dict(turns_and_steps=seq, heading=h0))
            x, y = polyline(seq, h0, 5.0, -7.0)
            s, k, h = geometry(x, y)
            gs, gk, gh = cartesian_to_curvilinear(x, y)
            rec.close(gs, s, "distance", "distance along the centre line")
            rec.close(gk, k, "curvature", "curvature of the centre line", rtol=1e-8)
            rec.close(gh, h, "heading", "heading of the centre line", rtol=1e-8)
            # moved, turned, mirrored, stretched and reversed centre lines
            a = 0.7 + 0.1 * (j % 7)
            xr, yr = np.cos(a) * x - np.sin(a) * y + 11.0, np.sin(a) * x + np.cos(a) * y - 3.0
            s2, k2, h2 = cartesian_to_curvilinear(xr, yr)
            rec.close(k2, gk, "turned", "curvature of the turned centre line", rtol=1e-7, atol=1e-8)
            turn = np.asarray(h2) - np.asarray(gh) - a
            rec.close(turn - turn[0], 0 * turn, "turned", "heading of the turned centre line", atol=1e-8)
            rec.close(np.cos(turn[0]), 1.0, "turned", "initial heading of the turned centre line", atol=1e-9)
            s3, k3, h3 = cartesian_to_curvilinear(x, -y)
            rec.close(k3, -gk, "mirrored", "curvature of the mirrored centre line", rtol=1e-8)
            for f in ((3.0, 1e-4, 1e5) if j % 5 == 0 else (3.0,)):
                s4, k4, h4 = cartesian_to_curvilinear(f * x, f * y)
                rec.close(s4 / f, gs, "stretched", f"distance along the centre line stretched by {f}")
                rec.close(k4 * f, gk, "stretched", f"curvature of the centre line stretched by {f}", rtol=1e-8, atol=1e-8)
                rec.close(h4, gh, "stretched", f"heading of the centre line stretched by {f}", rtol=1e-8, atol=1e-8)
            if j % 5 == 0:
                t = RaceTrack.from_cartesian(1e-4 * x, 1e-4 * y)
                check_track(t, 1e-4 * s, k * 1e4, h, np.full(len(x), 5.0), np.full(len(x), 5.0), rec, "from positions close together")
            s5, k5, h5 = cartesian_to_curvilinear(x[::-1].copy(), y[::-1].copy())
            rec.close(k5[::-1], -gk, "reversed", "curvature of the reversed centre line", rtol=1e-8)
            # the track made of it
            left, right = widths(len(x), j)
            keep = x.copy(), y.copy(), left.copy(), right.copy()
            if j % 3 == 0:
                t = RaceTrack.from_cartesian(x, y)
                left, right = np.full(len(x), 5.0), np.full(len(x), 5.0)
            elif j % 3 == 1:
                t = RaceTrack.from_cartesian(x, y, left, right)
            else:
                t = RaceTrack.from_cartesian(x=x, y=y, right_distance=right, left_distance=left)
            check_track(t, s, k, h, left, right, rec, "from positions")
            if j % 3:
                rec.check(all(np.array_equal(u, v) for u, v in zip(keep, (x, y, left, right))), "modified", "arrays of the caller were modified")
            # both descriptions agree
            xb, yb, hb = curvilinear_to_cartesian(gs, gk, x0=x[0], y0=y[0], heading0=gh[0])
            rec.close(hb, h, "both", "heading from the curvature", rtol=1e-8)
            want_x = x[0] + running_integral(np.cos(h), s)
            want_y = y[0] + running_integral(np.sin(h), s)
            rec.close(xb, want_x, "both", "positions from the curvature", rtol=1e-8)
            rec.close(yb, want_y, "both", "positions from the curvature", rtol=1e-8)
            rec.nontrivial(("line", seq, h0))
    rec.outcome("centre lines")


def run_profiles(unit, rec):
    """Tracks given by curvature along the distance."""
    from lumos.models.tracks import RaceTrack, curvilinear_to_cartesian

    j = 0
    for n in range(1, unit["n"] + 1):
        for rest in itertools.product(itertools.product(TURNS, STEPS), repeat=n):
            seq = [tuple(unit["first"])] + list(rest)
            j += 1
            k = 0.1 * np.array([a for a, _ in seq])
            s0 = (0.0, 12.5, -4.0)[j % 3]
            s = s0 + np.cumsum([0.0] + [b for _, b in seq[:-1]])
            h0 = (0.0, -2.0, 4.0)[j % 3]
            rec.at(dict(curvature=k.tolist(), distance=s.tolist(), heading=h0))
            left, right = widths(len(k), j)
            ss = s.copy()
            if j % 2:
                t = RaceTrack.from_curvilinear(s, k, heading0=h0, left_distance=left, right_distance=right)
            else:
                t = RaceTrack.from_curvilinear(s, k, h0)
                left = right = np.full(len(k), 5.0)
            if j % 4 == 0:  # and everything left at its default
                h0 = 0.0
                t = RaceTrack.from_curvilinear(s, k)
            xd, yd, hd = curvilinear_to_cartesian(s, k)
            rec.close(hd, running_integral(k, s), "default", "heading from the origin")
            rec.close(xd, running_integral(np.cos(hd), s), "default", "x positions from the origin")
            rec.close(yd, running_integral(np.sin(hd), s), "default", "y positions from the origin")
            rec.check(np.array_equal(s, ss), "modified", "distances of the caller were modified")
            check_track(t, s - s[0], k, h0 + running_integral(k, s), left, right, rec, "from a curvature profile")
            rec.nontrivial(("profile", seq, s0))
    rec.outcome("curvature profiles")


def read_table(path):
    rows = [l.strip() for l in open(path) if l.strip()]
    names = [c.strip() for c in rows[0].split(",")]
    data = np.array([[float(v) for v in r.split(",")] for r in rows[1:]])
    return {n: data[:, i] for i, n in enumerate(names)}


def run_files(unit, rec):
    from lumos.models.tracks import RaceTrack

    files = sorted(glob.glob("/repo/data/tracks/*.csv"))
    rec.check(len(files) > 10, "harness", "track files not found")
    for path in files[unit["part"]::8]:
        rec.at(dict(file=os.path.basename(path)))
        d = read_table(path)
        x, y = d["# x_m"], d["y_m"]
        s, k, h = geometry(x, y)
        t = RaceTrack.from_tum_csv(path)
        check_track(t, s, k, h, d["w_tr_left_m"], d["w_tr_right_m"], rec, os.path.basename(path))
        # a lap of a closed circuit turns once (within the two missing closing steps)
        turn = float(t.heading_at(t.total_distance) - t.heading_at(0.0))
        gap = np.hypot(x[0] - x[-1], y[0] - y[-1])
        if gap < 2 * np.median(np.diff(s)):
            rec.check(abs(abs(turn) - 2 * np.pi * round(abs(turn) / 2 / np.pi)) < 0.3, "lap", f"a lap turns by {turn}")
        rec.nontrivial(("file", path))
        rec.outcome("track files")


def run_curves(unit, rec):
    """Analytic curves: distance, curvature and heading converge, also for unevenly spaced points."""
    from lumos.models.tracks import RaceTrack

    n = unit["n"]
    curves = {
        "ellipse": (lambda u: (80 * np.cos(u), 40 * np.sin(u)), lambda u: 80 * 40 / (6400 * np.sin(u) ** 2 + 1600 * np.cos(u) ** 2) ** 1.5, lambda u: np.hypot(80 * np.sin(u), 40 * np.cos(u)), 2 * np.pi),
        "eight": (lambda u: (100 * np.sin(u), 50 * np.sin(2 * u)), None, lambda u: np.hypot(100 * np.cos(u), 100 * np.cos(2 * u)), 2 * np.pi),
        "spiral": (lambda u: (5 * u * np.cos(u), 5 * u * np.sin(u)), lambda u: (2 + u * u) / (5 * (1 + u * u) ** 1.5), lambda u: 5 * np.sqrt(1 + u * u), 14.0),
        "line": (lambda u: (3 * u, -4 * u), lambda u: 0 * u, lambda u: 0 * u + 5.0, 3.0),
    }
    for name, (pos, curv, speed, end) in curves.items():
        for m in (n, 2 * n):
            for warp in (0.0, 0.3):
                for sign in (1, -1):
                    rec.at(dict(curve=name, points=m, warp=warp, direction=sign))
                    lo = 2.0 if name == "spiral" else 0.0
                    v = np.linspace(0, 1, m)
                    u = lo + (end - lo) * (v + warp * np.sin(2 * np.pi * v) / (2 * np.pi))
                    if sign < 0:
                        u = u[::-1]
                    x, y = pos(u)
                    t = RaceTrack.from_cartesian(x, y)
                    w = np.linspace(min(u), max(u), 20001)
                    length = np.trapz(speed(w), w)
                    tol = 60.0 / m ** 2 * max(1.0, end)
                    rec.close(t.total_distance, length, "length", "length of the curve", rtol=tol)
                    s = np.concatenate([[0], np.cumsum(np.hypot(np.diff(x), np.diff(y)))])
                    if curv is not None:
                        rec.close(np.asarray(t.curvature_at(s))[3:-3], sign * curv(u)[3:-3], "curvature", "curvature of the curve", rtol=tol * 8, atol=tol)
                    e = 1e-6
                    p, q = pos(u - sign * e), pos(u + sign * e)
                    true = np.unwrap(np.arctan2(q[1] - p[1], q[0] - p[0]))
                    got = np.asarray(t.heading_at(s))
                    shift = 2 * np.pi * round((got[0] - true[0]) / 2 / np.pi)
                    rec.close(got - shift, true, "heading", "heading of the curve", atol=40.0 / m)
                    rec.nontrivial(("curve", name, m, warp, sign))
    rec.outcome("analytic curves")


def run_constant(unit, rec):
    from lumos.models.tracks import ConstCurvTrack

    for c, h, w in itertools.product((-0.2, 0.0, 0.01, 3.0), (-1.0, 0.0, 2.5), (0.5, 2, 7.0)):
        rec.at(dict(curvature=c, heading=h, half_width=w))
        t = ConstCurvTrack(curvature=c, start_heading=h, half_width=w)
        for s in (-3.0, 0.0, 1.0, 12.5, 4000.0):
            rec.close(t.curvature_at(s), c, "constant", "curvature", 1e-14, 0)
            rec.close(t.heading_at(s), h + c * s, "constant", "heading", 1e-12)
            rec.close([t.left_distance_at(s), t.right_distance_at(s)], [w, w], "constant", "distances to the bounds", 1e-14, 0)
        rec.nontrivial((c, h, w))
    t = ConstCurvTrack()
    rec.close([t.curvature_at(1.0), t.heading_at(0.0), t.left_distance_at(0.0)], [0.01, 0.0, 2], "constant", "defaults")


def run_tables(unit, rec):
    """Column order and further columns do not matter; a missing column is refused."""
    from lumos.models.tracks import RaceTrack

    x, y = polyline([(0.2, 3.0), (0.4, 2.0), (-0.3, 4.0), (0.1, 1.0), (0.5, 2.0)], 0.3)
    left, right = widths(len(x), 3)
    cols = {"# x_m": x, "y_m": y, "w_tr_right_m": right, "w_tr_left_m": left}
    s, k, h = geometry(x, y)
    d = core.scratch_dir()

    def write(names):
        path = os.path.join(d, "t.csv")
        with open(path, "w") as f:
            f.write(",".join(names) + "\n")
            for i in range(len(x)):
                f.write(",".join(repr(float(cols.get(n, 9.0 + np.arange(len(x)))[i])) for n in names) + "\n")
        return path

    for names in itertools.permutations(cols):
        for extra in ((), ("z_m",)):
            rec.at(dict(columns=names + extra))
            check_track(RaceTrack.from_tum_csv(write(list(extra) + list(names))), s, k, h, left, right, rec, "file")
            rec.nontrivial(names + extra)
    # closed, self-crossing, repeatedly visited, axis-parallel, sharply turning
    u = np.linspace(0, 2 * np.pi, 13)
    for shape, (x, y) in {
        "closed": (40 * np.cos(u) - 3, 20 * np.sin(u)),
        "two laps": (np.tile([30.0, 0.0, -30.0, 0.0], 2), np.tile([0.0, 20.0, 0.0, -20.0], 2)),
        "eight": (40 * np.round(np.sin(u), 12), 20 * np.round(np.sin(2 * u), 12)),
        "out and across": (np.array([0.0, 10, 20, 20, 10, 10, 10, 0]), np.array([0.0, 0, 0, 10, 10, 0, -10, -10])),
        "up": (np.full(6, 7.0), np.array([0.0, 1, 3, 6, 7, 9])),
        "along": (np.array([0.0, 1, 3, 6, 7, 9]), np.full(6, -2.0)),
        "hairpins": polyline([(0.2, 3.0), (3.0, 2.0), (3.0, 4.0), (2.9, 1.0), (0.5, 2.0), (-3.1, 2.0), (-3.0, 1.0)], 2.8),
    }.items():
        x, y = np.round(x, 9) + 0.0, np.round(y, 9) + 0.0
        left, right = widths(len(x), 5)
        cols = {"# x_m": x, "y_m": y, "w_tr_right_m": right, "w_tr_left_m": left}
        s, k, h = geometry(x, y)
        rec.at(dict(shape=shape))
        check_track(RaceTrack.from_tum_csv(write(list(cols))), s, k, h, left, right, rec, f"file, {shape}")
        check_track(RaceTrack.from_cartesian(x, y, left, right), s, k, h, left, right, rec, shape)
        rec.nontrivial(shape)
    for gone in cols:
        rec.at(dict(missing=gone))
        rec.expect_raises(lambda: RaceTrack.from_tum_csv(write([n for n in cols if n != gone])), "accepted", f"track file without {gone}")
        rec.nontrivial(("missing", gone))
