"""C15 KMM and MMDTarS solve the quadratic program they promise and give every row its own weight."""
import numpy as np
import scipy.optimize
from sklearn.metrics.pairwise import pairwise_kernels

import skada.utils
from harness import common as C
from harness.c13 import _data, _weights_at
from skada import KMMReweightAdapter, MMDTarSReweightAdapter

ASSUMPTIONS = ["scipy.optimize.minimize is replaced by a stub returning an arbitrary point; the objective, gradient "
               "and constraints handed to it are compared with the stated problem at an arbitrary point"]


class Solver:
    """stands for scipy.optimize.minimize"""

    def __init__(self, env):
        self.env = env
        self.calls = []
        env.patch(scipy.optimize, "minimize", self)
        if hasattr(skada.utils, "minimize"):
            env.patch(skada.utils, "minimize", self)

    def __call__(self, fun, x0, args=(), method=None, jac=None, bounds=None, constraints=(), tol=None, **k):
        n = len(x0)
        if args:
            f0, j0 = fun, jac
            fun = lambda z: f0(z, *args)
            jac = (lambda z: j0(z, *args)) if callable(j0) else j0
        if jac is True:
            both = fun
            fun, jac = (lambda z: both(z)[0]), (lambda z: both(z)[1])
        x = self.env.reals(f"sol{len(self.calls)}", n, -5, 5)
        self.calls.append(dict(fun=fun, jac=jac, bounds=bounds, constraints=constraints, n=n, x=x, x0=x0))
        return scipy.optimize.OptimizeResult(x=x, fun=fun(x), success=self.env.p.get("success", True), message="stub")


def feasible(call, z):
    """does z satisfy every constraint handed to the solver"""
    ok = True
    b = call["bounds"]
    if b is not None:
        for i, (lo, hi) in enumerate(zip(b.lb, b.ub) if hasattr(b, "lb") else b):
            if lo is not None and not (isinstance(lo, float) and np.isneginf(lo)):
                ok = ok & (z[i] >= lo)
            if hi is not None and not (isinstance(hi, float) and np.isposinf(hi)):
                ok = ok & (z[i] <= hi)
    cs = call["constraints"]
    for c in cs if isinstance(cs, (list, tuple)) else [cs]:
        if isinstance(c, dict):
            v = np.asarray(c["fun"](z)).ravel()
            for u in v:
                ok = ok & ((u == 0) if c["type"] == "eq" else (u >= 0))
            continue
        A = np.asarray(c.A)
        A = A.reshape(-1, call["n"])
        for r in range(A.shape[0]):
            v = sum(A[r, i] * z[i] for i in range(call["n"]))
            for side, f in (("lb", lambda a: v >= a), ("ub", lambda a: v <= a)):
                e = np.asarray(getattr(c, side)).ravel()
                e = e[r % len(e)]
                if not (isinstance(e, float) and np.isinf(e)):
                    ok = ok & f(e)
    return ok


def _same(env, a, b, msg):
    env.check((a & b) | (~np.bool_(a) if not hasattr(a, "e") else ~a) & (~np.bool_(b) if not hasattr(b, "e") else ~b), msg)


def kmm(env):
    X, d, src, tgt = _data(env, box=2)
    n, ns, nt = len(d), len(src), len(tgt)
    kern = env.p["kernel"]
    eps, B = env.p["eps"], env.p["B"]
    if isinstance(eps, list):
        eps = env.pick("eps", eps)
    s = Solver(env)
    ad = KMMReweightAdapter(kernel=kern, gamma=0.5, eps=eps, B=B, solver="scipy")
    X0 = env.snapshot(X)
    Xo, extra = ad.fit_transform(X, sample_domain=d)
    env.check_eq(Xo, X0, "features pass through unchanged")
    env.check(len(s.calls) == 1, "one program solved")
    c = s.calls[0]
    env.check(c["n"] == ns, "one unknown per source row")
    env.cover("solved")
    k = lambda i, j: pairwise_kernels(X[[i]], X[[j]], metric=kern, filter_params=True, gamma=0.5)[0, 0]
    z = env.reals("z", ns, -3, 3)
    kap = [sum(k(i, t) for t in tgt) * ns / nt for i in src]
    obj = sum(z[a] * z[b] * k(i, j) for a, i in enumerate(src) for b, j in enumerate(src)) / 2 \
        - sum(z[a] * kap[a] for a in range(ns))
    env.check_eq(c["fun"](z), obj, "the objective is the mean discrepancy between weighted source and target")
    g = c["jac"](z)
    for a, i in enumerate(src):
        env.check_eq(g[a], sum(z[b] * k(i, j) for b, j in enumerate(src)) - kap[a], "and its gradient")
    e = (np.sqrt(ns) - 1) / np.sqrt(ns) if eps is None else eps
    tot = sum(z[a] for a in range(ns))
    want = (tot <= ns * (1 + e)) & (tot >= ns * (1 - e))
    for a in range(ns):
        want = want & (z[a] >= 0) & (z[a] <= B)
    for lim in (ns * (1 + e), ns * (1 - e)):
        env.assume(np.abs(tot - lim) > 1e-6)
    _same(env, feasible(c, z), want, "weights in [0, B] whose mean is within eps of one")
    _weights_at(env, extra["sample_weight"], n, src, list(c["x"]), 0.0, "weight of a source row")
    Z, e2, s2, t2 = _data(env, 2, "2", need_t=False, box=2)
    w = ad.compute_weights(Z, sample_domain=e2)
    k2 = lambda r, j: pairwise_kernels(Z[[r]], X[[j]], metric=kern, filter_params=True, gamma=0.5)[0, 0]
    if len(s2) == ns and bool(np.all(Z[s2] == X[src])):
        want = list(c["x"])
    else:
        env.cover("new rows")
        want = [sum(k2(r, j) * c["x"][b] for b, j in enumerate(src)) for r in s2]
    _weights_at(env, w, 2, s2, want, 0.0, "weight of a new source row")


def kmm_fw(env):
    """the default solver returns weights that satisfy the constraints"""
    X, d, src, tgt = _data(env, box=2)
    n, ns = len(d), len(src)
    B, eps = env.p["B"], env.p["eps"]
    ad = KMMReweightAdapter(kernel="linear", eps=eps, B=B, max_iter=env.p["iters"])
    _, extra = ad.fit_transform(X, sample_domain=d)
    w = extra["sample_weight"]
    env.cover("solved")
    tot = sum(w[i] for i in src)
    env.check_le(tot, ns * (1 + eps), "mean weight at most 1 + eps")
    env.check_le(ns * (1 - eps), tot, "mean weight at least 1 - eps")
    for i in range(n):
        env.check_le(0.0, w[i], "non negative weights")
        env.check_le(w[i], B if i in src else 0.0, "weights bounded by B, zero on target rows")


def mmd(env):
    n = env.p["n"]
    d = env.array(env.pick("d", [(1, 1, -1), (1, -1, 1), (-1, 2, 1)]), np.int64)
    src, tgt = C.sign_split(d)
    X = env.reals("X", (n, 1), -2, 2)
    cls = env.p["discrete"]
    vals = [env.pick(f"y{i}", [0, 1, 2] if cls else [0.25, 1.5]) for i in range(n)]
    if not cls:
        env.assume(vals[src[0]] != vals[src[1]])
    y = env.array(vals, np.int64 if cls else np.float64)
    s = Solver(env)
    reg = 0.1
    ad = MMDTarSReweightAdapter(gamma=1.0, reg=reg)
    _, extra = ad.fit_transform(X, y, sample_domain=d)
    c, = s.calls
    env.cover("solved")
    m, nt = len(src), len(tgt)
    ys = [vals[i] for i in src]
    L = np.array([[np.exp(-1.0 * (a - b) ** 2) for b in ys] for a in ys])
    om = L @ np.linalg.inv(L + reg * np.eye(m))
    K = np.array([[pairwise_kernels(X[[i]], X[[j]], metric="rbf", gamma=1.0)[0, 0] for j in src] for i in src])
    Kt = np.array([[pairwise_kernels(X[[t]], X[[j]], metric="rbf", gamma=1.0)[0, 0] for j in src] for t in tgt])
    classes = sorted(set(ys))
    R = np.array([[1.0 if v == k else 0.0 for k in classes] for v in ys]) if cls else om
    env.check(c["n"] == R.shape[1], "one unknown per class (or per source row for a continuous label)")
    z = env.reals("z", R.shape[1], -3, 3)
    beta = R @ z
    A = om @ K @ om.T
    obj = 0.5 * (beta @ A @ beta) - (m / nt) * np.sum((np.ones(nt) @ Kt @ om.T) * beta)
    env.check_eq(c["fun"](z), obj, "the objective matches the weighted source labels to the target features")
    e = 10 / (4 * np.sqrt(m))
    want = (np.sum(beta) <= m * (1 + e)) & (np.sum(beta) >= m * (1 - e))
    for b in beta:
        env.assume((np.abs(b) > 1e-5) & (np.abs(b - 10) > 1e-5))
        want = want & (b >= 0) & (b <= 10)
    for lim in (m * (1 + e), m * (1 - e)):
        env.assume(np.abs(np.sum(beta) - lim) > 1e-5)
    _same(env, feasible(c, z), want, "weights in [0, 10] whose mean is within eps of one")
    w = R @ c["x"]
    _weights_at(env, extra["sample_weight"], n, src, list(w), 0.0, "weight of a source row")
    # other rows of the same domains
    perm = env.perm("perm", n)
    Z, y2, d2 = X[perm] + 0.5, y[perm], d[perm]
    w2 = ad.compute_weights(Z, y2, sample_domain=d2)
    if cls:
        env.cover("new rows")
        want = [w[src.index(perm[r])] for r in range(n) if perm[r] in src]
        _weights_at(env, w2, n, [r for r in range(n) if perm[r] in src], want, 0.0, "the weight of the class")


_s = dict(cover=["solved", "new rows"])
INSTANCES = [
    ("kmm_linear", kmm, dict(n=3, kernel="linear", eps=None, B=1000.0), dict(_s, cost=3, time=100, query_ms=5000)),
    ("kmm_eps", kmm, dict(n=3, kernel="linear", eps=[0.0, 0.95, 1.5], B=2.0), dict(_s, cost=3, time=100, query_ms=5000)),
    ("kmm_rbf", kmm, dict(n=3, kernel="rbf", eps=0.25, B=4.0), dict(_s, cost=3, time=100, query_ms=5000)),
    ("kmm_fw", kmm_fw, dict(n=4, eps=0.25, B=1000.0, iters=2), dict(cover=["solved"], time=100)),
    ("kmm_fw_B", kmm_fw, dict(n=3, eps=0.25, B=1.0, iters=1), dict(cover=["solved"], time=100)),
    ("mmd_classes", mmd, dict(n=3, discrete=True), dict(_s, time=100, query_ms=5000)),
    ("mmd_values", mmd, dict(n=3, discrete=False), dict(cover=["solved"], time=100, query_ms=5000)),
    ("kmm_fw3", kmm_fw, dict(n=4, eps=0.25, B=1000.0, iters=3), dict(cover=["solved"], tier="thorough")),
]
