"""C18 the quadratic program solvers solve the program they are given."""
import warnings

import numpy as np
import scipy.optimize

from harness.c15 import Solver, _same, feasible
from skada.utils import frank_wolfe, qp_solve

ASSUMPTIONS = ["scipy.optimize.minimize is replaced by a stub returning an arbitrary point and status",
               "frank-wolfe: equality multipliers c > 0 and 0 <= clb <= cub, the setting its docstring describes"]


def _problem(env, n):
    if "Q" in env.p:
        Q = env.array(env.p["Q"], np.float64)
    else:
        U = env.reals("Q", n * (n + 1) // 2, -3, 3)
        Q = np.stack([np.stack([U[max(i, j) * (max(i, j) + 1) // 2 + min(i, j)] for j in range(n)])
                      for i in range(n)])
    return Q, (env.reals("c", n, -3, 3) if env.p.get("lin", True) else None)


def _obj(Q, c, z):
    n = len(z)
    v = sum(z[i] * Q[i, j] * z[j] for i in range(n) for j in range(n)) / 2
    return v if c is None else v + sum(c[i] * z[i] for i in range(n))


def scipy_route(env):
    n, p = env.p["n"], env.p
    Q, c = _problem(env, n)
    kw = {}
    if p["A"]:
        kw["A"], kw["b"] = env.reals("A", (p["A"], n), -3, 3), env.reals("b", p["A"], -3, 3)
    if p["Aeq"]:
        kw["Aeq"], kw["beq"] = env.reals("E", (p["Aeq"], n), -3, 3), env.reals("f", p["Aeq"], -3, 3)
    if p["lb"]:
        kw["lb"] = env.reals("lb", n, -3, 3)
    if p["ub"]:
        kw["ub"] = env.reals("ub", n, -3, 3)
    if p.get("x0"):
        kw["x0"] = env.reals("x0", n, -3, 3)
    env.p["success"] = bool(env.bool("success"))
    s = Solver(env)
    log = p.get("log", False)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        out = qp_solve(Q, c, solver="scipy", log=log, **kw)
    env.check(len(s.calls) == 1, "one program handed to the solver")
    call = s.calls[0]
    env.check(len(out) == (3 if log else 2), "solution, value (and log)")
    env.check_eq(out[0], call["x"], "the solver's point is returned")
    env.check_eq(out[1], _obj(Q, c, call["x"]), "with the value of the objective there")
    env.check(bool(rec) == (not env.p["success"]), "a failed optimisation is reported by a warning")
    env.cover("warned" if rec else "solved")
    if p.get("x0"):
        env.check_eq(call["x0"], kw["x0"], "started from the given point")
    z = env.reals("z", n, -3, 3)
    env.check_eq(call["fun"](z), _obj(Q, c, z), "objective x'Qx/2 + c'x")
    if call["jac"] is not None:
        for i in range(n):
            env.check_eq(call["jac"](z)[i], sum(Q[i, j] * z[j] for j in range(n)) + (0 if c is None else c[i]),
                         "its gradient")
    want = z[0] == z[0]
    lims = []
    if p["A"]:
        for r in range(p["A"]):
            v = sum(kw["A"][r, i] * z[i] for i in range(n))
            want = want & (v <= kw["b"][r])
    if p["Aeq"]:
        for r in range(p["Aeq"]):
            v = sum(kw["Aeq"][r, i] * z[i] for i in range(n))
            want = want & (v == kw["beq"][r])
    for i in range(n):
        if p["lb"]:
            want = want & (z[i] >= kw["lb"][i])
        if p["ub"]:
            want = want & (z[i] <= kw["ub"][i])
    _same(env, feasible(call, z), want, "exactly the given constraints")


def _fw_args(env, n):
    c = env.reals("a", n, 0.25, 3)
    lo = env.real("clb", 0, 3)
    hi = env.real("cub", 0, 3)
    env.assume(lo <= hi)
    return c, lo, hi


def _feas(env, x, c, lo, hi, msg):
    v = sum(c[i] * x[i] for i in range(len(x)))
    env.check_le(v, hi, f"{msg}: upper bound")
    env.check_le(lo, v, f"{msg}: lower bound")
    for i in range(len(x)):
        env.check_le(0.0, x[i], f"{msg}: non negative")


def fw_feasible(env):
    """whatever the gradients are, the result is feasible"""
    n, k = env.p["n"], env.p["iters"]
    c, lo, hi = _fw_args(env, n)
    seen = []

    def jac(x):
        seen.append(x)
        return env.reals(f"g{len(seen)}", n, -3, 3)
    x0 = None
    if env.p.get("x0"):
        x0 = env.reals("x0", n, 0, 3)
        v = sum(c[i] * x0[i] for i in range(n))
        env.assume((v >= lo) & (v <= hi))
    x = frank_wolfe(jac, c, clb=lo, cub=hi, x0=x0, max_iter=k)
    env.check(x.shape == (n,), "one value per unknown")
    _feas(env, x, c, lo, hi, "result")
    env.cover("ran")


def fw_step(env):
    """every step goes towards a minimiser of the linearised objective over the feasible set"""
    n, k = env.p["n"], env.p["iters"]
    c, lo, hi = _fw_args(env, n)
    xs, gs = [], []

    def jac(x):
        xs.append(x)
        gs.append(env.reals(f"g{len(gs)}", n, -3, 3))
        return gs[-1]
    out = frank_wolfe(jac, c, clb=lo, cub=hi, max_iter=k)
    env.check(len(gs) == k, "max_iter gradient steps")
    xs.append(out)
    z = env.reals("z", n, 0, 9)
    v = sum(c[i] * z[i] for i in range(n))
    env.assume((v >= lo) & (v <= hi))
    for t in range(k):
        lr = 2.0 / (t + 2.0)
        step = sum(gs[t][i] * (xs[t + 1][i] - xs[t][i]) for i in range(n))
        env.check_le(step, lr * sum(gs[t][i] * (z[i] - xs[t][i]) for i in range(n)),
                     "the step minimises the linearised objective over the feasible set")
    env.cover("ran")


def fw_route(env):
    n = env.p["n"]
    Q, c = _problem(env, n)
    a = env.reals("a", n, 0.25, 3)
    kind = env.p["kind"]
    if kind == "eq":
        lo = hi = env.real("beq", 0, 3)
        kw = dict(Aeq=np.stack([a]), beq=env.array([lo]))
    elif kind == "two":
        lo = env.real("lo", 0, 3)
        hi = env.real("hi", 0, 3)
        env.assume(lo <= hi)
        kw = dict(A=np.stack([a, -a]), b=env.array([hi, -lo]))
    else:
        lo, hi = 0.0, env.real("hi", 0.5, 3)
        kw = dict(A=np.stack([a]), b=env.array([hi]))
    x, val = qp_solve(Q, c, solver="frank-wolfe", max_iter=env.p["iters"], **kw)
    env.check_eq(val, _obj(Q, c, x), "value of the objective at the returned point")
    _feas(env, x, a, lo, hi, "result")
    env.cover("ran")
    # one exact step from the last-but-one iterate: at iterate x1 the answer after one iteration is
    # the vertex minimising the gradient at the starting point
    z = env.reals("z", n, 0, 9)
    v = sum(a[i] * z[i] for i in range(n))
    env.assume((v >= lo) & (v <= hi))
    if env.p["iters"] == 1:
        x0 = env.reals("x0", n, 0, 3)
        x1, _ = qp_solve(Q, c, solver="frank-wolfe", max_iter=1, x0=x0, **kw)
        g = [sum((Q[i, j]) * x0[j] for j in range(n)) + (0 if c is None else c[i]) for i in range(n)]
        env.check_le(sum(g[i] * x1[i] for i in range(n)), sum(g[i] * z[i] for i in range(n)),
                     "one step reaches the minimiser of the objective linearised at the start")


def errors(env):
    n = 2
    Q, c = _problem(env, n)
    A = env.reals("A", (env.p["rows"], n), 0.25, 3)
    b = env.reals("b", env.p["rows"], -3, 3)
    what = env.pick("what", ["solver", "none", "rows", "eqrows", "opposite", "order"])
    if what == "solver":
        env.raises(lambda: qp_solve(Q, c, A=A, b=b, solver="simplex"), ValueError, "unknown solver is rejected")
    elif what == "none":
        env.raises(lambda: qp_solve(Q, c, solver="frank-wolfe"), ValueError, "frank-wolfe needs a constraint")
    elif what == "rows":
        env.raises(lambda: qp_solve(Q, c, A=np.concatenate([A, A])[:3], b=np.concatenate([b, b])[:3],
                                    solver="frank-wolfe"), ValueError, "more than two rows are rejected")
    elif what == "eqrows":
        env.raises(lambda: qp_solve(Q, c, Aeq=A, beq=b, solver="frank-wolfe"), ValueError,
                   "more than one equality is rejected")
    elif what == "opposite":
        env.raises(lambda: qp_solve(Q, c, A=A, b=b, solver="frank-wolfe"), ValueError,
                   "two rows that are not opposite are rejected")
    else:
        env.assume(b[0] < -b[1])
        env.raises(lambda: qp_solve(Q, c, A=np.stack([A[0], -A[0]]), b=b, solver="frank-wolfe"), ValueError,
                   "an empty feasible set is rejected")
    env.cover(what)


_s = dict(cover=["solved", "warned"])
_q = dict(n=2, A=0, Aeq=0, lb=False, ub=False)
INSTANCES = [
    ("scipy_all", scipy_route, dict(_q, A=2, Aeq=1, lb=True, ub=True, x0=True), dict(_s)),
    ("scipy_free", scipy_route, dict(_q, log=True), dict(_s)),
    ("scipy_lb", scipy_route, dict(_q, lb=True, A=1, lin=False), dict(_s)),
    ("scipy_ub", scipy_route, dict(_q, ub=True, Aeq=1), dict(_s)),
    ("scipy3", scipy_route, dict(_q, n=3, A=1, Aeq=1, lb=True, ub=True), dict(_s)),
    ("fw_feasible", fw_feasible, dict(n=3, iters=2), dict(cover=["ran"], time=60)),
    ("fw_feasible_x0", fw_feasible, dict(n=2, iters=3, x0=True), dict(cover=["ran"], time=60)),
    ("fw_step", fw_step, dict(n=2, iters=2), dict(cover=["ran"], time=100)),
    ("fw_step3", fw_step, dict(n=3, iters=1), dict(cover=["ran"], time=100)),
    ("fw_eq", fw_route, dict(n=2, iters=1, kind="eq", Q=[[2.0, 0.5], [0.5, 1.0]]), dict(cover=["ran"], time=60)),
    ("fw_two", fw_route, dict(n=2, iters=1, kind="two", Q=[[2.0, -0.5], [-0.5, 1.0]]), dict(cover=["ran"], time=60)),
    ("fw_two2", fw_route, dict(n=2, iters=2, kind="two", lin=False), dict(cover=["ran"], time=60)),
    ("fw_one", fw_route, dict(n=2, iters=1, kind="one", Q=[[2.0, 0.5], [0.5, 1.0]]), dict(cover=["ran"], time=60)),
    ("errors", errors, dict(rows=2), dict(cover=["solver", "none", "rows", "eqrows", "opposite", "order"])),
    ("fw_feasible4", fw_feasible, dict(n=4, iters=3), dict(cover=["ran"], tier="thorough")),
    ("fw_step33", fw_step, dict(n=3, iters=3), dict(cover=["ran"], tier="thorough")),
]
