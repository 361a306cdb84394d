"""C16: compiled libraries under crashes, compiler failures and concurrent processes."""
import errno
import hashlib
import itertools
import json
import os
import select
import shutil
import signal
import stat
import subprocess
import sys
import tempfile
import time

import numpy as np

CHECK = dict(
    id="C16",
    level="fault_enumeration",
    technique="exhaustive exploration of crash points, compiler faults and process schedules: real processes run under a controller "
    "that stops them at every file operation and at every step of a stand-in compiler, and enumerates all faults and all "
    "schedules up to a preemption bound",
    rule="every file operation and compiler step of a build as a crash point (process alone, or with its compiler), every compiler "
    "fault, each followed by attempts for the same and another function; all schedules of two building processes with at most "
    "the bound of preemptions, with and without one of them killed at any step; all orders of up to three functions in one and in "
    "several processes; a case is one fault history or schedule",
    assumptions=["crashes are process deaths: what was written before stays written",
                 "the compiler is called as gcc, cc or clang found on PATH with -o; the stand-in writes its output in two parts"],
    note="All crash points, faults and bounded schedules of the real build code in real processes.",
)
UNIT_TIMEOUT = 600
FUNCS = [("A", ()), ("A", ("o1",)), ("L", ()), ("AM", ())]
# functions that differ in little: a constant (early or late), what is constrained, and in which order
TWINS = [("A", ("o2",)), ("A", ("o1", "o2")), ("A", ("o2", "o1")), ("AR", ()), ("G1.5", ()), ("G2.5", ()), ("H1.5", ()), ("H2.5", ()),
         ("G1.5", ("o2",)), ("G2.5", ("o2",)), ("H1.5", ("r1",)), ("H2.5", ("r1",)),
         ("S1.5,2.5", ()), ("S2.5,1.5", ()), ("Z1.5", ()), ("Z2.5", ())]


def model_of(mk):
    """G<x>: TinyA with its first derivative times x; H<x>: with its last output times x; S<x>,<y>: both; Z<x>: as H, but
    with long code before. All are called TinyA."""
    import lumos.numpy as lnp
    from mc.models import MODELS, TinyA

    if mk[0] not in "GHSZ":
        return MODELS[mk][0]()
    gains = [float(g) for g in mk[1:].split(",")]
    first = gains[0] if mk[0] in "GS" else 1.0
    last = gains[-1] if mk[0] in "HSZ" else 1.0

    def forward(self, states, inputs, mesh=0.0):
        r = super(cls, self).forward(states, inputs, mesh)
        r.states_dot["time"] = first * r.states_dot["time"]
        if mk[0] == "Z":
            r.states_dot["time"] = r.states_dot["time"] + 0.01 * sum(lnp.sin(0.01 * i * states["p"]) for i in range(1, LONG))
        r.outputs["r1"] = last * r.outputs["r1"]
        return r

    cls = type("TinyA", (TinyA,), {"forward": forward, "__module__": TinyA.__module__})
    return cls()

LONG = 400

GCC = r"""#!/bin/sh
# stand-in compiler: same result as the real one, produced step by step under control
out=""; src=""; prev=""
for a in "$@"; do
  [ "$prev" = "-o" ] && out="$a"
  case "$a" in *.c) src="$a";; esac
  prev="$a"
done
echo call >> "$MC_CTL/calls"
gate() {
  if [ -n "$MC_GATE" ]; then echo "gcc-$1" > "$MC_CTL/up"; read x < "$MC_CTL/down"; fi
  if [ "$MC_FAULT" = "$1" ]; then
    case "$MC_HOW" in
      fail) exit 1;;
      die) kill -9 $$;;
      killall) kill -9 $MC_VICTIM; exit 1;;
      killpy) kill -9 $MC_VICTIM;;
    esac
  fi
}
gate start
key=$(cat "$src" | md5sum | cut -d' ' -f1)
lib="$MC_LIBS/$key.so"
if [ ! -e "$lib" ]; then
  cp "$src" "$MC_LIBS/$key.$$.c"
  "$MC_GCC" -fPIC -O1 -shared "$MC_LIBS/$key.$$.c" -o "$MC_LIBS/$key.$$.so" || exit 1
  mv "$MC_LIBS/$key.$$.so" "$lib"
fi
gate read
size=$(stat -c %s "$lib"); half=$((size / 2))
head -c $half "$lib" > "$out" || exit 1
gate partial
tail -c +$((half + 1)) "$lib" >> "$out" || exit 1
chmod +x "$out"
gate end
exit 0
"""


class Lab:
    """A scratch world: stand-in compiler, cache of real compilations."""

    def __init__(self):
        import ctypes

        from mc import core

        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)  # orphaned compilers become our children, so that we can tell when they end
        self.root = core.scratch_dir()
        self.bin = os.path.join(self.root, "bin")
        self.libs = os.path.join(self.root, "libs")
        os.mkdir(self.bin)
        os.mkdir(self.libs)
        for n in ("gcc", "cc", "clang"):
            p = os.path.join(self.bin, n)
            with open(p, "w") as f:
                f.write(GCC)
            os.chmod(p, 0o755)
        self.real = shutil.which("gcc")
        self.n = 0
        self.expected = {}
        import lumos.models  # noqa: F401
        import mc.models  # noqa: F401

    def workdir(self):
        self.n += 1
        d = os.path.join(self.root, f"w{self.n}")
        os.mkdir(d)
        return d

    def clean(self, d):
        if os.path.dirname(d) == self.root:
            shutil.rmtree(d, ignore_errors=True)


POINT = dict(seed=3)


def build_and_eval(func):
    """Build the casadi functions of a model and evaluate all of them."""
    from mc import ref as R
    mk, outs = func
    m = model_of(mk)
    m.set_con_outputs(outs)
    m.make_model_algebra_cons("casadi")
    a = m.model_algebra
    n = 2
    Z = R.generic(n * m.num_implicit_var, 4).reshape(n, -1)
    lam = R.generic(n * m.num_implicit_res, 6).reshape(n, -1)
    me = np.array([0.3, 1.1])
    t = m.get_recursive_params()
    p = t.tree_ravel()[0]
    r = m.batched_forward(Z[:, :m.num_states], Z[:, m.num_states:m.num_states + m.num_inputs], me, t)
    return [np.asarray(v).tolist() for v in (
        a.mapped_constraints(Z, me, p), a.mapped_jacobian(Z, me, p), a.mapped_hessian(Z, lam, me, p), r.states_dot, r.outputs)]


def numeric(func):
    """The same constraint values and states_dot without any compiled code."""
    from mc import ref as R
    mk, outs = func
    m = model_of(mk)
    m.set_con_outputs(outs)
    Z = R.generic(2 * m.num_implicit_var, 4).reshape(2, -1)
    cut = np.cumsum([m.num_states, m.num_inputs, m.num_states])
    con, dot = [], []
    for z, me in zip(Z, (0.3, 1.1)):
        d = dict(zip(("states", "inputs", "states_dot", "con_outputs"), np.split(z, cut)))
        con.append(m.implicit(mesh=me, **d))
        dot.append(m.forward_with_arrays(d["states"], d["inputs"], me).states_dot)
    return np.array(con), np.array(dot)


FILE_EVENTS = ("open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod",
               "shutil.move", "shutil.copyfile", "tempfile.mkdtemp", "tempfile.mkstemp", "subprocess.Popen", "os.system", "os.posix_spawn")


class Proc:
    """One building process under control."""

    def __init__(self, lab, cwd, funcs, gate=False, fault=None, how=None, gcc=True, retry=False):
        self.lab = lab
        self.ctl = tempfile.mkdtemp(prefix="ctl", dir=lab.root)
        os.mkfifo(os.path.join(self.ctl, "up"))
        os.mkfifo(os.path.join(self.ctl, "down"))
        self.up = os.open(os.path.join(self.ctl, "up"), os.O_RDWR | os.O_NONBLOCK)
        self.down = os.open(os.path.join(self.ctl, "down"), os.O_RDWR)
        self.buf = b""
        self.where = None
        self.status = None
        self.gate = gate
        self.events = []
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.child(cwd, funcs, fault, how, gcc, retry)
            except BaseException as e:  # noqa: BLE001
                self.result(dict(fatal=f"{type(e).__name__}: {e}"))
            finally:
                os._exit(0)

    def result(self, r):
        with open(os.path.join(self.ctl, "result.tmp"), "w") as f:
            json.dump(r, f)
        os.rename(os.path.join(self.ctl, "result.tmp"), os.path.join(self.ctl, "result"))

    def child(self, cwd, funcs, fault, how, gcc, retry):
        os.setsid()
        signal.alarm(0)
        devnull = os.open("/dev/null", os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        os.chdir(cwd)
        os.environ.update(MC_CTL=self.ctl, MC_LIBS=self.lab.libs, MC_GCC=self.lab.real, MC_VICTIM=str(os.getpid()),
                          MC_GATE="1" if self.gate else "", MC_FAULT=fault or "", MC_HOW=how or "",
                          PATH=(self.lab.bin + ":" if gcc else os.path.join(self.lab.root, "nothing") + ":") + ("/usr/bin:/bin" if gcc else ""))
        if self.gate:
            up = os.open(os.path.join(self.ctl, "up"), os.O_RDWR)
            down = os.open(os.path.join(self.ctl, "down"), os.O_RDWR)
            real = os.path.realpath(cwd)
            busy = [False]

            def hook(event, args):
                if busy[0] or event not in FILE_EVENTS:
                    return
                busy[0] = True
                try:
                    if event not in ("subprocess.Popen", "os.system", "os.posix_spawn"):
                        paths = [a for a in args if isinstance(a, (str, bytes))]
                        paths = [a.decode() if isinstance(a, bytes) else a for a in paths[:2]]
                        if not any(os.path.realpath(p).startswith(real) for p in paths if p and "/" in p or p and not p.startswith("r")):
                            return
                    name = event
                    if event == "open" and ((isinstance(args[1], str) and set(args[1]) & set("wx"))
                                            or (isinstance(args[2], int) and args[2] & (os.O_CREAT | os.O_TRUNC))):
                        name = "write " + os.path.realpath(paths[0])
                    os.write(up, f"py-{name}\n".encode())
                    while os.read(down, 1) != b"\n":
                        pass
                finally:
                    busy[0] = False

            sys.addaudithook(hook)
        out = []
        for f in funcs:
            try:
                out.append(build_and_eval(f))
            except Exception as e:  # noqa: BLE001
                out.append(f"{type(e).__name__}: {e}"[:300])
        if retry:  # the compiler is there (again): the same process tries once more
            os.environ.update(MC_FAULT="", PATH=self.lab.bin + ":/usr/bin:/bin")
            for f in funcs:
                try:
                    out.append(build_and_eval(f))
                except Exception as e:  # noqa: BLE001
                    out.append(f"{type(e).__name__}: {e}"[:300])
        self.result(dict(out=out))

    # -- controller side ------------------------------------------------------------
    def poll(self, timeout=60.0):
        """Wait until the process stops at a gate (returns its name) or has ended (returns None)."""
        if self.status is not None:
            return None
        end = time.time() + timeout
        while True:
            if b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                self.where = line.decode()
                self.events.append(self.where)
                return self.where
            r, _, _ = select.select([self.up], [], [], 0.002)
            if r:
                try:
                    self.buf += os.read(self.up, 4096)
                except BlockingIOError:
                    pass
                continue
            pid, st = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                self.status = st
                self.where = None
                return None
            if time.time() > end:
                self.kill(True)
                raise TimeoutError(f"process stuck after {self.events[-3:]}")

    def go(self):
        os.write(self.down, b"go\n")
        self.where = None
        return self.poll()

    def finish(self):
        """Let it run freely to its end."""
        while self.status is None and (self.where is not None or self.poll() is not None):
            self.where = None
            os.write(self.down, b"go\n")
        return self

    def kill(self, group):
        """group: the compiler dies too; otherwise it goes on as an orphan."""
        if self.status is None:
            try:
                if group:
                    os.killpg(self.pid, signal.SIGKILL)
                else:
                    os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            _, self.status = os.waitpid(self.pid, 0)
        if not group:  # release whatever the orphan waits for, and let it finish
            end = time.time() + 5
            while time.time() < end:
                os.write(self.down, b"go\n")
                try:
                    while os.waitpid(-self.pid, os.WNOHANG)[0]:
                        pass
                except ChildProcessError:
                    pass
                try:
                    os.killpg(self.pid, 0)
                except (ProcessLookupError, PermissionError):
                    break
                time.sleep(0.002)
            else:
                try:
                    os.killpg(self.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        self.where = None

    def calls(self):
        p = os.path.join(self.ctl, "calls")
        return len(open(p).readlines()) if os.path.exists(p) else 0

    def answer(self):
        p = os.path.join(self.ctl, "result")
        return json.load(open(p)) if os.path.exists(p) else None

    def close(self):
        if self.status is None:
            self.kill(True)
        os.close(self.up)
        os.close(self.down)
        if os.path.dirname(self.ctl) == self.lab.root:
            shutil.rmtree(self.ctl, ignore_errors=True)


def run_alone(lab, cwd, funcs, **kw):
    p = Proc(lab, cwd, funcs, **kw).finish()
    ans, calls, st = p.answer(), p.calls(), p.status
    p.close()
    return ans, calls, st


def expected(lab, rec, func):
    if func not in lab.expected:
        d = lab.workdir()
        ans, calls, st = run_alone(lab, d, [func])
        lab.clean(d)
        rec.check(ans is not None and "out" in ans and not isinstance(ans["out"][0], str), "clean", f"build in a clean directory fails: {ans} {st}")
        con, dot = numeric(func)
        rec.close(ans["out"][0][0], con, "clean", f"compiled constraints of {func}", rtol=1e-12)
        rec.close(ans["out"][0][3], dot, "clean", f"compiled states_dot of {func}", rtol=1e-12)
        rec.check(calls >= 1, "harness", "the stand-in compiler was not used")
        lab.expected[func] = ans["out"][0]
    return lab.expected[func]


def must_be(lab, rec, ans, st, funcs, what):
    rec.check(ans is not None, "died", f"{what}: the process died (status {st})")
    rec.check("out" in ans, "died", f"{what}: {ans}")
    for f, got in zip(funcs, ans["out"]):
        rec.check(not isinstance(got, str), "failed", lambda: f"{what}: building {f} failed: {got}")
        want = expected(lab, rec, f)
        for part, g, w in zip(("constraints", "jacobian", "hessian", "states_dot", "outputs"), got, want):
            rec.close(g, w, "wrong-function", f"{what}: {part} of {f}", rtol=1e-13)


def aftermath(lab, rec, cwd, funcs, what):
    """Whatever happened in `cwd`: later attempts succeed, and afterwards nothing is compiled again."""
    for f in funcs:
        ans, _, st = run_alone(lab, cwd, [f])
        must_be(lab, rec, ans, st, [f], f"{what}, then a new process")
    ans, calls, st = run_alone(lab, cwd, funcs)
    must_be(lab, rec, ans, st, funcs, f"{what}, then all functions again")
    rec.check(calls == 0, "recompiled", f"{what}: existing libraries were compiled again ({calls} calls)")


def units(tier):
    quick = tier == "quick"
    out = [dict(kind="crash", f=f, group=g) for f in range(2 if quick else 4) for g in (True, False)]
    out += [dict(kind="compiler", how=h) for h in ("fail", "die", "killall", "killpy", "missing")]
    out += [dict(kind="twins", first=f) for f in range(len(TWINS))]
    out += [dict(kind="orders", first=f, n=2 if quick else 3) for f in range(len(FUNCS))]
    pairs = [(0, 0), (0, 1)] if quick else [(0, 0), (0, 1), (1, 0), (0, 2), (3, 3)]
    bound = 1 if quick else 2
    for a, b in pairs:
        for part in range(4 if quick else 16):
            out.append(dict(kind="schedules", pair=[a, b], bound=bound, part=part, parts=4 if quick else 16))
            out.append(dict(kind="killed", pair=[a, b], part=part, parts=4 if quick else 16, group=bool(part % 2) if quick else None))
    return out


def run_crash(unit, rec):
    """Kill the process at its k-th step, for every k."""
    lab = Lab()
    f = FUNCS[unit["f"]]
    other = FUNCS[(unit["f"] + 1) % len(FUNCS)]
    expected(lab, rec, f), expected(lab, rec, other)
    k, torn = 0, None
    while True:
        rec.at(dict(function=f, crash_at=k, with_compiler=unit["group"], torn=torn))
        cwd = lab.workdir()
        p = Proc(lab, cwd, [f], gate=True)
        at = p.poll()
        for _ in range(k):
            if at is None:
                break
            at = p.go()
        ended = at is None
        if not ended:
            p.kill(unit["group"])
        what = f"killed at step {k} ({at})"
        p.close()
        written = at[len("py-write "):] if at and at.startswith("py-write ") else None
        if torn is not None:
            # the file was just being written: what is there may be any part of it
            lib = sorted(n for n in os.listdir(lab.libs) if n.endswith(".so" if ".so" in written else ".c"))
            body = open(os.path.join(lab.libs, lib[0]), "rb").read() if lib else b"x" * 4096
            if os.path.realpath(written).startswith(os.path.realpath(cwd) + "/") and os.path.isdir(os.path.dirname(written)):
                with open(written, "wb") as g:
                    g.write(body[: int(torn * len(body))])
            what += f", {torn} of the file written"
        aftermath(lab, rec, cwd, [f, other], what)
        lab.clean(cwd)
        rec.nontrivial(("crash", f, k, unit["group"], torn))
        rec.outcome(f"crash point {'py-write' if written else at}" + ("" if torn is None else f" with {torn} of the file"))
        if written:
            torn = {None: 0.0, 0.0: 0.5, 0.5: None}[torn]
            if torn is not None:
                continue
        if ended:
            rec.bounds["crash_points"] = k
            rec.check(k >= 3, "harness", f"only {k} steps of the build were observed: {p.events}")
            return
        k += 1


def run_compiler(unit, rec):
    """The compiler fails, dies or takes the process with it at any of its steps."""
    lab = Lab()
    for fi, f in enumerate(FUNCS):
        other = FUNCS[(fi + 1) % len(FUNCS)]
        for step in ("start", "read", "partial", "end"):
            rec.at(dict(function=f, compiler=unit["how"], step=step))
            cwd = lab.workdir()
            kw = dict(gcc=False) if unit["how"] == "missing" else dict(fault=step, how=unit["how"])
            what = f"compiler fault {unit['how']} at {step}"
            ans, _, st = run_alone(lab, cwd, [f], **kw)
            if unit["how"] in ("fail", "die", "missing"):
                rec.check(ans is not None and isinstance(ans["out"][0], str), "unreported", f"{what}: not reported: {str(ans)[:200]}")
                # and the same process may try again
                cwd2 = lab.workdir()
                ans, _, st = run_alone(lab, cwd2, [f], retry=True, **kw)
                rec.check(ans is not None and isinstance(ans["out"][0], str), "unreported", f"{what}: not reported")
                must_be(lab, rec, dict(out=ans["out"][1:]), st, [f], f"{what}, then again in the same process")
                lab.clean(cwd2)
            aftermath(lab, rec, cwd, [f, other], what)
            # the fault hits while another library is already there
            ans, _, st = run_alone(lab, cwd, [other, f, FUNCS[(fi + 2) % len(FUNCS)]], **kw)
            if ans is not None:
                must_be(lab, rec, dict(out=ans["out"][:2]), st, [other, f], f"{what} with existing libraries")
            aftermath(lab, rec, cwd, [other, f], what)
            lab.clean(cwd)
            rec.nontrivial((unit["how"], f, step))
            if unit["how"] == "missing":
                break


def run_orders(unit, rec):
    lab = Lab()
    for rest in itertools.product(range(len(FUNCS)), repeat=unit["n"]):
        seq = [FUNCS[i] for i in (unit["first"],) + rest]
        rec.at(dict(order=seq))
        cwd = lab.workdir()
        ans, _, st = run_alone(lab, cwd, seq)
        must_be(lab, rec, ans, st, seq, f"{seq} in one process")
        aftermath(lab, rec, cwd, seq[::-1], f"after {seq}")
        lab.clean(cwd)
        cwd = lab.workdir()
        for f in seq:
            ans, _, st = run_alone(lab, cwd, [f])
            must_be(lab, rec, ans, st, [f], f"{f} of {seq} in processes of their own")
        lab.clean(cwd)
        rec.nontrivial(("order", seq))


def run_twins(unit, rec):
    """Every ordered pair of functions that differ in little, in one process and in two."""
    lab = Lab()
    a = TWINS[unit["first"]]
    for b in TWINS:
        rec.at(dict(order=[a, b]))
        cwd = lab.workdir()
        ans, _, st = run_alone(lab, cwd, [a])
        must_be(lab, rec, ans, st, [a], f"{a} before {b}")
        ans, _, st = run_alone(lab, cwd, [b, a, b])
        must_be(lab, rec, ans, st, [b, a, b], f"{b} after {a}")
        lab.clean(cwd)
        rec.nontrivial(("twins", a, b))
        rec.outcome("pairs of similar functions")


def run_schedule(lab, rec, funcs, sched, what, kill=None):
    """sched: list of process numbers, one step each; then both run to their end (process 0 first).
    kill = (process, group) after the schedule. Returns number of steps each had taken when it ended."""
    cwd = lab.workdir()
    ps = [Proc(lab, cwd, [f], gate=True) for f in funcs]
    try:
        used = []
        for p in ps:
            p.poll()
        for i in sched:
            if ps[i].where is None:
                return None  # the process has already ended: covered by a shorter schedule
            ps[i].go()
            used.append(i)
        if kill is not None:
            if ps[kill[0]].where is None:
                return None
            ps[kill[0]].kill(kill[1])
        order = [0, 1]
        for i in order:
            if kill is None or kill[0] != i:
                ps[i].finish()
        for i, p in enumerate(ps):
            if kill is None or kill[0] != i:
                must_be(lab, rec, p.answer(), p.status, [funcs[i]], f"{what}: process {i}")
        rec.transition(sum(len(p.events) for p in ps))
    finally:
        for p in ps:
            p.close()
    aftermath(lab, rec, cwd, sorted(set(funcs)), what)
    lab.clean(cwd)
    return True


def steps_of(lab, rec, f):
    cwd = lab.workdir()
    p = Proc(lab, cwd, [f], gate=True).finish()
    n = len(p.events)
    p.close()
    lab.clean(cwd)
    return n


def run_schedules(unit, rec):
    """All schedules with at most `bound` + 1 switches: process 1 runs a steps, 0 runs b steps, 1 runs c, ..."""
    lab = Lab()
    funcs = [FUNCS[i] for i in unit["pair"]]
    n = [steps_of(lab, rec, f) for f in funcs]
    for f in funcs:
        expected(lab, rec, f)
    todo = []
    for first in (0, 1):
        a, b = n[first], n[1 - first]
        for i in range(a + 1):
            if unit["bound"] == 0:
                todo.append([first] * i)
                continue
            for j in range(1, b + 1):
                s = [first] * i + [1 - first] * j
                todo.append(s)
                if unit["bound"] >= 2:
                    for k in range(1, a - i):
                        todo.append(s + [first] * k)
    for s in todo[unit["part"]::unit["parts"]]:
        rec.at(dict(functions=funcs, schedule=s))
        if run_schedule(lab, rec, funcs, s, f"schedule {s}"):
            rec.nontrivial(("schedule", funcs, s))
            rec.outcome("schedules")
        else:
            rec.outcome("schedules past the end")


def run_killed(unit, rec):
    """Process 0 is killed after i steps while process 1 has taken j."""
    lab = Lab()
    funcs = [FUNCS[i] for i in unit["pair"]]
    n = [steps_of(lab, rec, f) for f in funcs]
    for f in funcs:
        expected(lab, rec, f)
    groups = [unit["group"]] if unit["group"] is not None else [True, False]
    todo = [([1] * j + [0] * i, (0, g)) for i in range(n[0]) for j in range(n[1] + 1) for g in groups]
    todo += [([0] * i + [1] * j, (0, g)) for i in range(n[0]) for j in range(1, n[1] + 1) for g in groups]
    for s, kill in todo[unit["part"]::unit["parts"]]:
        rec.at(dict(functions=funcs, schedule=s, killed=kill))
        if run_schedule(lab, rec, funcs, s, f"schedule {s} then killing {kill}", kill):
            rec.nontrivial(("killed", funcs, s, kill))
            rec.outcome("killed while the other builds")
        else:
            rec.outcome("schedules past the end")


def run_unit(unit, rec):
    dict(crash=run_crash, compiler=run_compiler, orders=run_orders, twins=run_twins, schedules=run_schedules, killed=run_killed)[unit["kind"]](unit, rec)
