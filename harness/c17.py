"""C17 subspace adapters embed every row where it stands, with the projection they fit."""
import numpy as np
import scipy.linalg
from sklearn.decomposition import PCA
from sklearn.metrics.pairwise import pairwise_kernels

import skada._subspace as sub
from harness import common as C
from harness.c13 import _data
from skada import (SubspaceAlignmentAdapter, TransferComponentAnalysisAdapter, TransferJointMatchingAdapter,
                   TransferSubspaceLearningAdapter)

ASSUMPTIONS = ["PCA and the eigen-solvers are replaced by stubs returning arbitrary components; the problem handed "
               "to the eigen-solver is compared with the stated one; kernels: linear, rbf (exp uninterpreted)"]


class Pca:
    """stands for PCA: arbitrary components, mean of the fitted rows"""

    def __init__(self, env):
        self.env, self.seen = env, []
        me = self

        def fit(self, X, y=None):
            k = len(me.seen)
            nc = self.n_components
            me.seen.append((X, nc))
            self.components_ = env.reals(f"P{k}", (nc, X.shape[1]), -3, 3)
            self.mean_ = env.reals(f"mu{k}", X.shape[1], -3, 3)
            self.n_features_in_ = X.shape[1]
            return self
        env.patch(PCA, "fit", fit)
        env.patch(PCA, "transform", lambda self, X: (X - self.mean_) @ self.components_.T)
        env.patch(PCA, "fit_transform", lambda self, X, y=None: fit(self, X).transform(X))


def _blocks(env, f_src, f_tgt, X, d, out, msg):
    for i in range(len(d)):
        env.check_eq(out[i], (f_src if d[i] >= 0 else f_tgt)(X[i]), msg)


def alignment(env):
    X, d, src, tgt = _data(env, width=2, box=3)
    pca = Pca(env)
    nc = env.p["nc"]
    ad = SubspaceAlignmentAdapter(n_components=nc)
    X0 = env.snapshot(X)
    out = ad.fit_transform(X, sample_domain=d)
    env.check(len(pca.seen) == 2, "one PCA per side")
    (Xs, n1), (Xt, n2) = pca.seen
    env.check_rows(Xs, [X[i] for i in src], "the first PCA sees the source rows")
    env.check_rows(Xt, [X[i] for i in tgt], "the second PCA sees the target rows")
    want = nc or min(len(d), 2)
    env.check(n1 == want and n2 == want, "number of components")
    Ps, Pt = ad.pca_source_.components_, ad.pca_target_.components_
    ms, mt = ad.pca_source_.mean_, ad.pca_target_.mean_
    f_src = lambda x: (x - ms) @ Ps.T @ Ps @ Pt.T
    f_tgt = lambda x: (x - mt) @ Pt.T
    env.check(out.shape == (len(d), want), "one embedded row per row")
    _blocks(env, f_src, f_tgt, X, d, out, "row embedded with its own side's projection")
    env.check_eq(X, X0, "input untouched")
    env.cover("fitted")
    Z, e, s2, t2 = _data(env, 2, "2", width=2, box=3, need_t=False)
    out2 = ad.transform(Z, sample_domain=e, allow_source=True)
    _blocks(env, f_src, f_tgt, Z, e, out2, "new row embedded with its own side's projection")
    env.check(len(pca.seen) == 2, "transform does not fit")
    T = env.reals("T", (2, 2), -3, 3)
    out3 = ad.transform(T)
    _blocks(env, f_src, f_tgt, T, [-1, -1], out3, "rows without domain are target rows")


class Eig:
    """stands for the (generalised) symmetric eigen-solver: arbitrary answer, recorded question"""

    def __init__(self, env, values=None):
        self.env, self.calls, self.values = env, [], values

        def solve(a, b=None, *args, **k):
            n, c = a.shape[0], len(self.calls)
            w = env.reals(f"w{c}", n, -3, 3)
            V = env.reals(f"V{c}", (n, n), -2, 2) if values is None else env.array(values(c, n), np.float64)
            self.calls.append((a, b, w, V))
            return w, V
        env.patch(scipy.linalg, "eigh", solve)
        env.patch(np.linalg, "eigh", lambda a, UPLO="L": solve(a))
        env.patch(scipy.linalg, "eig", solve)
        env.patch(np.linalg, "eig", lambda a: solve(a))


def _problem(X, src, tgt, kern):
    o = src + tgt
    n, ns, nt = len(o), len(src), len(tgt)
    K = [[pairwise_kernels(X[[i]], X[[j]], metric=kern)[0, 0] for j in o] for i in o]
    e = [1.0 / ns] * ns + [-1.0 / nt] * nt
    KE = [sum(K[i][j] * e[j] for j in range(n)) for i in range(n)]          # K L K = (Ke)(Ke)'
    m = [sum(K[i][j] for j in range(n)) / n for i in range(n)]
    KHK = [[sum(K[i][k] * K[k][j] for k in range(n)) - n * m[i] * m[j] for j in range(n)] for i in range(n)]
    return n, K, KE, KHK


def _same_matrix(env, got, want, msg):
    n = len(want)
    env.check(got is not None and got.shape == (n, n), msg)
    for i in range(n):
        for j in range(n):
            env.check_eq(got[i, j], want[i][j], msg)


def _embed(X, i, src, tgt, ref, V, kern):
    """kernel row of point i against the fitted rows, times V"""
    k = [pairwise_kernels(X[[i]], ref[[j]], metric=kern)[0, 0] for j in src + tgt]
    return [sum(k[j] * V[j, c] for j in range(len(k))) for c in range(V.shape[1])]


def tca(env):
    kern, mu, nc = env.p["kernel"], 0.5, env.p["nc"]
    X, d, src, tgt = _data(env, box=2)
    n = len(d)
    e = Eig(env)
    ad = TransferComponentAnalysisAdapter(kernel=kern, n_components=nc, mu=mu)
    out = ad.fit_transform(X, sample_domain=d)
    a, b, w, V = e.calls[0]
    env.check(len(e.calls) == 1, "one eigenproblem")
    _, K, KE, KHK = _problem(X, src, tgt, kern)
    A = [[(1.0 if i == j else 0.0) + mu * KE[i] * KE[j] for j in range(n)] for i in range(n)]
    if env.p["problem"]:
        _same_matrix(env, a, KHK, "the variance to keep is K H K")
        _same_matrix(env, b, A, "the penalty is I + mu K L K")
    want_nc = min(n, 1) if nc is None else nc
    env.check(out.shape == (n, want_nc), "one embedded row per row")
    mag = [np.abs(w[k]) for k in range(n)]
    for i in range(n):
        for j in range(i):
            env.assume(np.abs(mag[i] - mag[j]) > 1e-3)
    order = sorted(range(n), key=lambda k: sum(1 for j in range(n) if bool(mag[j] > mag[k])))[:want_nc]
    Vs = V[:, order]
    for i in range(n):
        env.check_eq(out[i], _embed(X, i, src, tgt, X, Vs, kern), "row embedded where it stands", tol=1e-5)
    env.cover("fitted")
    Z, d2, s2, t2 = _data(env, 2, "2", box=2, need_t=False)
    out2 = ad.transform(Z, sample_domain=d2, allow_source=True)
    for i in range(2):
        env.check_eq(out2[i], _embed(Z, i, src, tgt, X, Vs, kern), "new row embedded by the same map", tol=1e-5)
    env.check(len(e.calls) == 1, "transform does not fit")


def tjm(env):
    kern, lam = env.p["kernel"], 0.25
    n, iters = env.p["n"], env.p["iters"]
    d = env.array([env.pick(f"d{i}", [1, -1]) for i in range(n)], np.int64)
    src, tgt = C.sign_split(d)
    env.assume(len(src) > 0 and len(tgt) > 0)
    X = env.reals("X", (n, 1), -2, 2) if env.p["sym"] else env.array(env.pick("X", env.p["X"]), np.float64)
    e = Eig(env, env.p.get("V") and (lambda c, m: env.p["V"][c]))
    ad = TransferJointMatchingAdapter(kernel=kern, n_components=1, tradeoff=lam, max_iter=iters, tol=0.0)
    out = ad.fit_transform(X, sample_domain=d)
    env.check(1 <= len(e.calls) <= iters, "at most max_iter alternations")
    _, K, KE, KHK = _problem(X, src, tgt, kern)
    norm = np.sqrt(1.0 / len(src) ** 2 + 1.0 / len(tgt) ** 2 + 2.0 / (len(src) * len(tgt)))
    G = [1.0] * n
    for t, (a, b, w, V) in enumerate(e.calls):
        B = [[KE[i] * KE[j] / norm + (lam * G[i] if i == j else 0.0) for j in range(n)] for i in range(n)]
        if env.p["problem"]:
            _same_matrix(env, a, B, f"objective of iteration {t}")
            _same_matrix(env, b, KHK, "constraint K H K")
        for i in range(n):
            for j in range(i):
                env.assume(np.abs(w[i] - w[j]) > 1e-3)
        k = min(range(n), key=lambda k: sum(1 for j in range(n) if bool(w[j] < w[k])))
        v = [V[i, k] for i in range(n)]
        for i in range(len(src)):
            env.assume(np.abs(v[i]) > 0.25)
        G = [0.5 / np.abs(v[i]) if i < len(src) else 1.0 for i in range(n)]
    Vs = np.stack([np.stack([u]) for u in v]) if env.symbolic else np.array(v).reshape(-1, 1)
    for i in range(n):
        env.check_eq(out[i], _embed(X, i, src, tgt, X, Vs, kern), "row embedded where it stands", tol=1e-5)
    env.cover("fitted")
    if iters > 1:
        # with these eigenvectors the objective keeps changing, so a zero tolerance never stops early
        env.check(len(e.calls) == iters, "the alternation goes on until the objective settles")
    Z, d2, s2, t2 = _data(env, 1, "2", box=2, need_t=False)
    out2 = ad.transform(Z, sample_domain=d2, allow_source=True)
    env.check_eq(out2[0], _embed(Z, 0, src, tgt, X, Vs, kern), "new row embedded by the same map", tol=1e-5)


def tsl(env):
    """transform only: every row is projected by the fitted basis"""
    ad = TransferSubspaceLearningAdapter(n_components=1)
    W = env.reals("W", (2, 1), -3, 3)
    ad.W_ = W
    X, d, src, tgt = _data(env, width=2, need_t=False)
    out = ad.transform(X, sample_domain=d, allow_source=True)
    env.check_rows(out, [x @ W for x in X], "every row is projected by the fitted basis")
    env.cover("fitted")


_X = [[[1], [2], [4]], [[3], [1], [-1]]]
_V = [[[1, 2, -1], [0.5, 1, 2], [-2, 0.5, 1]], [[2, -1, 0.5], [1, 1, 1], [0.5, -2, -1]]]
_V4 = [[[1, 2, -1, 1], [0.5, 1, 2, 2], [-2, 0.5, 1, -1], [1, -2, 1, 3]],
       [[2, -1, 0.5, -2], [1, 1, 1, 0.5], [0.5, -2, -1, 1], [1, 1, -3, 1]], [[3, -1, 0.5, -2], [1, 4, 1, 0.5], [1, -2, -1, 1], [1, 2, -3, 1]]]
_s = dict(cover=["fitted"])
INSTANCES = [
    ("alignment", alignment, dict(n=3, nc=1), dict(_s, time=100)),
    ("alignment2", alignment, dict(n=3, nc=None), dict(_s, time=100)),
    ("tca_linear", tca, dict(n=3, kernel="linear", nc=2, problem=True), dict(_s, time=100)),
    ("tca_rbf", tca, dict(n=3, kernel="rbf", nc=None, problem=False), dict(_s, time=100)),
    ("tjm_linear", tjm, dict(n=3, kernel="linear", iters=1, sym=False, problem=True, X=_X, V=_V), dict(_s, time=80)),
    ("tjm_rbf", tjm, dict(n=3, kernel="rbf", iters=1, sym=False, problem=True, X=_X, V=_V), dict(_s, time=100)),
    ("tjm_alternate", tjm, dict(n=3, kernel="linear", iters=2, sym=False, problem=True, X=_X[:1], V=_V),
     dict(_s, time=100)),
    ("tsl", tsl, dict(n=3), dict(_s)),
    ("tjm_any", tjm, dict(n=3, kernel="linear", iters=1, sym=False, problem=True, X=_X[:1]), dict(_s, tier="thorough")),
    ("alignment_n4", alignment, dict(n=4, nc=2), dict(_s, tier="thorough")),
    ("tca_n4", tca, dict(n=4, kernel="linear", nc=2, problem=True), dict(_s, tier="thorough")),
    ("tjm_n4", tjm, dict(n=4, kernel="linear", iters=3, sym=False, problem=True, X=[[[1], [2], [4], [-1]]], V=_V4),
     dict(_s, tier="thorough")),
]
