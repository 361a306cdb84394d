"""Shared exploration machinery: recorder, worker pool, known findings, evidence, replay.

A check module defines
    CHECK = dict(id=..., level=..., rule=..., assumptions=[...], technique=...)
    units(tier)            -> list of JSON-able work units (the partition of the space)
    run_unit(unit, rec)    -> explores one unit exhaustively, reporting into `rec`
and optionally
    UNIT_TIMEOUT           -> seconds after which a unit counts as "no answer"

Everything a run reports (states, transitions, evaluations, distinct cases) is counted in the
Recorder while the real code is being driven.
"""
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
import multiprocessing as mp

VERIF = os.environ.get("VERIF_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
KNOWN_FILE = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Violation(Exception):
    """The property does not hold for the current case."""

    def __init__(self, key, msg, case=None):
        super().__init__(msg)
        self.key = key
        self.msg = msg
        self.case = case


def h64(obj) -> int:
    if not isinstance(obj, (bytes, str)):
        obj = json.dumps(obj, sort_keys=True, default=_jd)
    if isinstance(obj, str):
        obj = obj.encode()
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "big")


def _jd(o):
    try:
        import numpy as np

        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, np.generic):
            return o.item()
    except ImportError:
        pass
    if isinstance(o, (set, frozenset)):
        return sorted(map(str, o))
    if isinstance(o, tuple):
        return list(o)
    return str(o)


def load_known(prop):
    """{key: description} of the findings listed for this property (not the fixed ones)."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith("finding: "):
                fields = line[len("finding: "):].split(" ", 2)
                kv = dict(f.split("=", 1) for f in fields[:2])
                if kv.get("property") == prop:
                    out[kv["key"]] = fields[2]
    return out


class Recorder:
    def __init__(self, prop, known=None):
        self.prop = prop
        self.known = known if known is not None else load_known(prop)
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.distinct = set()
        self.states = set()
        self.outcomes = {}
        self.samples = []
        self.known_hits = {}
        self.case = None
        self.bounds = {}

    # -- counting -----------------------------------------------------------------
    def at(self, case):
        """Declare the case being explored (for replay) and count it as an evaluation."""
        self.case = case
        self.evaluations += 1

    def nontrivial(self, key):
        self.distinct.add(h64(key))

    def state(self, key):
        """Record a reached state; True when it is new."""
        k = h64(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(json.loads(json.dumps(obj, default=_jd)))

    # -- verdicts -----------------------------------------------------------------
    def fail(self, key, msg, case=None):
        if key in self.known:
            self.known_hits[key] = self.known[key]
            return
        raise Violation(key, msg, case if case is not None else self.case)

    def check(self, cond, key, msg, case=None):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, case)

    def close(self, got, want, key, what, rtol=1e-9, atol=1e-9):
        import numpy as np

        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:  # noqa: BLE001
            self.fail(key, f"{what}: not comparable ({e}): got {got!r}, expected {want!r}")
            return
        if g.shape != w.shape:
            self.fail(key, f"{what}: shape {g.shape}, expected {w.shape}")
            return
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            idx = np.argwhere(~ok)[:4].tolist()
            self.fail(
                key,
                f"{what}: {int((~ok).sum())} of {ok.size} values differ, first at {idx}: "
                f"got {g[~ok].ravel()[:4].tolist()}, expected {w[~ok].ravel()[:4].tolist()}",
            )

    def expect_raises(self, fn, key, what, types=(Exception,)):
        try:
            r = fn()
        except types:
            return True
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            self.fail(key, f"{what}: raised {type(e).__name__}({e}) instead of {[t.__name__ for t in types]}")
            return False
        self.fail(key, f"{what}: accepted, returning {r!r:.200}")
        return False

    def dump(self):
        return dict(
            evaluations=self.evaluations,
            transitions=self.transitions,
            traces=self.traces,
            distinct=self.distinct,
            states=self.states,
            outcomes=self.outcomes,
            samples=self.samples,
            known_hits=self.known_hits,
            bounds=self.bounds,
        )

    def merge(self, d):
        self.evaluations += d["evaluations"]
        self.transitions += d["transitions"]
        self.traces += d["traces"]
        self.distinct |= d["distinct"]
        self.states |= d["states"]
        for k, v in d["outcomes"].items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for s in d["samples"]:
            if len(self.samples) < 6:
                self.samples.append(s)
        self.known_hits.update(d["known_hits"])
        for k, v in d["bounds"].items():
            self.bounds[k] = max(v, self.bounds.get(k, v)) if isinstance(v, (int, float)) else v


# ---------------------------------------------------------------------------------
# worker side
_MOD = None
_SCRATCH = None


class _Timeout(BaseException):
    pass


def _on_alarm(*_):
    raise _Timeout()


def _quiet():
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(5000)


def _init(modname, scratch):
    global _MOD, _SCRATCH
    _SCRATCH = tempfile.mkdtemp(prefix="w", dir=scratch)
    os.chdir(_SCRATCH)
    _quiet()
    import importlib

    _MOD = importlib.import_module(modname)
    _quiet()


def _run(args):
    unit, known, timeout = args
    rec = Recorder(_MOD.CHECK["id"], known)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(int(timeout))
    t0 = time.time()
    try:
        _MOD.run_unit(unit, rec)
        res = None
    except Violation as v:
        res = dict(key=v.key, msg=v.msg, case=v.case)
    except _Timeout:
        res = dict(key="no-answer", msg=f"no answer within {timeout}s", case=rec.case)
    except Exception as e:  # noqa: BLE001  the code under test failed where it must not
        tb = traceback.format_exc(limit=-6)
        key = "unexpected-" + type(e).__name__
        if key in rec.known:
            rec.known_hits[key] = rec.known[key]
            res = None
        else:
            res = dict(key=key, msg=f"unexpected {type(e).__name__}: {e}\n{tb}", case=rec.case)
    finally:
        signal.alarm(0)
    out = rec.dump()
    out["violation"] = res
    out["wall"] = time.time() - t0
    return unit, out


def scratch_dir():
    """A fresh empty directory inside this worker's scratch directory."""
    return tempfile.mkdtemp(prefix="d", dir=_SCRATCH or None)


# ---------------------------------------------------------------------------------
# driver side
def run_check(modname, replay=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    scratch = tempfile.mkdtemp(prefix="mc-")
    os.chdir(scratch)
    _quiet()
    import importlib

    mod = importlib.import_module(modname)
    spec = mod.CHECK
    prop = spec["id"]
    known = load_known(prop)
    total = Recorder(prop, known)
    timeout = getattr(mod, "UNIT_TIMEOUT", 400) * (10 if tier == "thorough" else 1)
    violations = []
    nworkers = getattr(mod, "WORKERS", 8)

    try:
        if replay:
            units = [json.load(open(replay))["unit"]]
        else:
            units = list(mod.units(tier))
        walls = []
        if not replay:
            # seed only rotates the order in which the (complete) set of units is visited
            r = seed % max(1, len(units))
            units = units[r:] + units[:r]
        ctx = mp.get_context("spawn")
        pool = ProcessPoolExecutor(
            max_workers=min(nworkers, len(units)), mp_context=ctx, initializer=_init,
            initargs=(modname, scratch),
        )
        try:
            futs = {pool.submit(_run, (u, known, timeout)): u for u in units}
            for f in as_completed(futs):
                try:
                    unit, out = f.result()
                except BrokenProcessPool:
                    violations.append(
                        (futs[f], dict(key="crash", msg="the interpreter died", case=None))
                    )
                    break
                total.merge(out)
                walls.append((out["wall"], unit))
                if out["violation"]:
                    violations.append((unit, out["violation"]))
                    if not os.environ.get("MC_ALL"):
                        break
        finally:
            workers = list((getattr(pool, "_processes", None) or {}).values())
            pool.shutdown(wait=False, cancel_futures=True)
            for p in workers:
                try:
                    p.kill()
                    p.join(5)
                except Exception:  # noqa: BLE001
                    pass
        wall = time.time() - t0
        if os.environ.get("MC_VERBOSE"):
            for w, u in sorted(walls, key=lambda t: -t[0])[:8]:
                print(f"  unit {w:.1f}s {json.dumps(u, default=_jd)[:160]}")
        cov = coverage(spec, total, len(units), complete=not violations and not replay)
        ev = dict(
            property=prop, tier=tier, seed=seed, level=spec["level"], coverage=cov,
            assumptions=spec.get("assumptions", []), wall_s=round(wall, 3),
            violations=len(violations),
        )
        if not replay:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
                json.dump(ev, f, indent=1, default=_jd)
                f.write("\n")
        for k, d in sorted(total.known_hits.items()):
            print(f"KNOWN-FINDING: property={prop} [{k}] {d}")
        for unit, v in violations:
            path = replay or write_replay(prop, unit, v)
            print(f"property {prop} violated [{v['key']}]: {v['msg']}")
            print(f"  case: {json.dumps(v['case'], default=_jd)[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        print(
            f"{prop} {tier}: {len(units)} units, "
            + ", ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, int))
            + f", {wall:.1f}s, violations={len(violations)}"
        )
        if os.environ.get("MC_VERBOSE"):
            print("  outcomes:", json.dumps(total.outcomes, sort_keys=True)[:2000])
        sys.stdout.flush()
        return 1 if violations else 0
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def write_replay(prop, unit, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, unit=unit, key=v["key"], case=v["case"], msg=v["msg"])
    path = os.path.join(d, f"{prop}-{h64([unit, v['key'], v['case']]):016x}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1, default=_jd)
        f.write("\n")
    return path


def coverage(spec, rec, nunits, complete):
    cov = {}
    if spec["level"] == "model_checking":
        cov["states"] = len(rec.states)
        cov["transitions"] = rec.transitions
        cov["traces_validated_against_impl"] = rec.traces
        cov["cases"] = rec.evaluations
    else:
        cov["evaluations"] = rec.evaluations
        cov["distinct_nontrivial"] = len(rec.distinct)
        if rec.transitions:
            cov["transitions"] = rec.transitions
    cov["rule"] = spec["rule"]
    cov["units"] = nunits
    cov["outcomes"] = rec.outcomes
    cov["samples"] = rec.samples
    cov["exhaustive"] = bool(complete)
    if rec.bounds:
        cov["bounds"] = rec.bounds
    return cov
