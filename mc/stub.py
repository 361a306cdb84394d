"""A stand-in for cyipopt.Problem that records what it is given and plays back a scripted solve.

Installed before lumos is imported, so that it does not matter how lumos refers to the solver.
`SCRIPT` is a callable (stub, x0) -> (x, info) or None for the default (return x0, status 0)."""
import os

import cyipopt
import numpy as np

REAL = cyipopt.Problem
SCRIPT = None
CALLS = []
ACTIVE = True


class StubProblem:
    def __new__(cls, *args, **kwargs):
        return object.__new__(cls) if ACTIVE else REAL(*args, **kwargs)

    def __init__(self, n, m, problem_obj=None, lb=None, ub=None, cl=None, cu=None):
        self.n, self.m, self.obj = n, m, problem_obj
        arr = lambda a: None if a is None else np.array(a, dtype=float)  # noqa: E731
        self.lb, self.ub, self.cl, self.cu = arr(lb), arr(ub), arr(cl), arr(cu)
        self.raw = (lb, ub, cl, cu)
        self.options = {}
        self.solves = []
        CALLS.append(self)

    def add_option(self, name, val):
        self.options[name] = val

    addOption = add_option

    def solve(self, x, lagrange=[], zl=[], zu=[]):
        f = self.options.get("output_file")
        if f and not os.path.exists(f):
            open(f, "w").close()
        self.solves.append(dict(x=np.array(x, dtype=float), lagrange=np.array(lagrange, dtype=float),
                                zl=np.array(zl, dtype=float), zu=np.array(zu, dtype=float)))
        if SCRIPT is not None:
            return SCRIPT(self, np.array(x, dtype=float))
        return np.array(x, dtype=float), dict(status=0, status_msg=b"ok", obj_val=0.0, mult_g=np.zeros(self.m),
                                              mult_x_L=np.zeros(self.n), mult_x_U=np.zeros(self.n), x=np.array(x))

    def close(self):
        pass


def install():
    cyipopt.Problem = StubProblem
    cyipopt.problem = StubProblem


def seen(p, x0=None, **opts):
    """The StubProblem that p.solve() builds, with what was passed to its solve."""
    CALLS.clear()
    x0 = np.zeros(p.num_dec) if x0 is None else x0
    ret = p.solve(x0, **opts)
    s = CALLS[-1]
    s.ret = ret
    return s
