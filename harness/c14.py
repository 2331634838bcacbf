"""C14 KLIEP weights."""
import numpy as np
from sklearn.metrics.pairwise import pairwise_kernels

from harness import common as C
from harness.c13 import _data, _weights_at
from skada import KLIEPReweightAdapter

ASSUMPTIONS = ["kernel values are an uninterpreted positive function (rbf); arbitrary choice of the centers",
               "bounded number of optimisation steps"]
EPS = np.finfo(float).eps


def _k(x, y, gamma):
    return pairwise_kernels(x.reshape(1, -1), y.reshape(1, -1), metric="rbf", gamma=gamma)[0, 0]


def weights(env):
    """w(x) = sum_k alpha_k K(x, c_k), alpha >= 0, centers are target rows, mean weight 1"""
    if "far" in env.p:
        # many centers with overlapping kernels: a projection step clips coefficients at zero
        r, m = env.pick("r", [1.1, 1.2, 3.0]), env.pick("m", [4, 6])
        X = np.array([[0.0]] * 2 + [[0.0]] + [[r]] * m + [[-r]] * (6 - m))
        d = np.array([1, 1] + [-1] * 7)
        src, tgt = C.sign_split(d)
    else:
        X, d, src, tgt = _data(env, box=2)
    n = len(d)
    gamma = env.p["gamma"]
    ad = KLIEPReweightAdapter(gamma=gamma, n_centers=env.p["centers"], max_iter=env.p["iters"], tol=env.p.get("tol", 0),
                              random_state=C.GenRng(env) if "far" in env.p else C.NDRng(env))
    X0 = env.snapshot(X)
    Xo, extra = ad.fit_transform(X, sample_domain=d)
    env.check_eq(Xo, X0, "features pass through unchanged")
    g = 1.0 / X.shape[1] if gamma == "auto" else gamma
    if gamma == "scale":
        v = np.mean((X - X.mean()) ** 2)
        g = 1.0 if bool(v == 0) else 1.0 / v
    env.check_eq(ad.best_gamma_, g, "kernel width")
    c, a = ad.centers_, ad.alpha_
    env.check(c.shape[0] == min(len(tgt), env.p["centers"]) == a.shape[0], "number of centers")
    for k in range(c.shape[0]):
        hit = False
        for t in tgt:
            hit = hit | np.all(c[k] == X[t])
        env.check(hit, "the centers are target rows")
        env.check(a[k] >= 0, "non negative coefficients")
    w = extra["sample_weight"]
    want = [sum(_k(X[i], c[k], g) * a[k] for k in range(c.shape[0])) for i in src]
    _weights_at(env, w, n, src, want, 0.0, "weight of a source row")
    for i in src:
        env.check(w[i] >= 0, "non negative weights")
    if env.p["iters"]:
        env.check_eq(sum(want), 1.0 * len(src), "weights have mean one on the source")
    env.cover("fitted")
    Z, e, s2, t2 = _data(env, 2, "2", need_t=False, box=2)
    want = [sum(_k(Z[i], c[k], g) * a[k] for k in range(c.shape[0])) for i in s2]
    _weights_at(env, ad.compute_weights(Z, sample_domain=e), 2, s2, want, 0.0, "weight of a new source row")


def refit(env):
    """fitting again on other data is like fitting a fresh adapter on it"""
    gammas = env.pick("gamma", ["scale", ["scale"], ["auto"]])
    ad = KLIEPReweightAdapter(gamma=gammas, cv=2, max_iter=0, n_centers=1, random_state=C.NDRng(env))
    X = np.array([[0.0], [1.0], [3.0], [4.0]])
    d = np.array([1, 1, -1, -1])
    ad.fit(X, sample_domain=d)
    env.check(ad.gamma == gammas, "fit leaves the constructor parameters alone")
    k = env.real("k", 2, 3)
    Z = X * k
    ad.fit(Z, sample_domain=d)
    fresh = KLIEPReweightAdapter(gamma=gammas if isinstance(gammas, str) else list(gammas), cv=2, max_iter=0, n_centers=1, random_state=C.NDRng(env))
    fresh.fit(Z, sample_domain=d)
    env.cover("refitted")
    env.check_eq(ad.best_gamma_, fresh.best_gamma_, "refitting forgets the previous data")


def select(env):
    """with several widths, the one with the largest held-out likelihood is used"""
    X, d, src, tgt = _data(env, box=2)
    env.assume(len(tgt) == 2)
    gammas = [0.5, 2.0]
    ad = KLIEPReweightAdapter(gamma=list(gammas), cv=2, max_iter=1, tol=0, random_state=C.NDRng(env))
    ad.fit(X, sample_domain=d)
    best = [g for g in gammas if bool(ad.best_gamma_ == g)]
    env.check(len(best) == 1, "one of the given widths is used")
    ll = []
    for g in gammas:
        tot = 0.0
        for tr, te in ((tgt[1], tgt[0]), (tgt[0], tgt[1])):
            # an adapter of that width fitted on the other target row, asked for the held-out row
            one = KLIEPReweightAdapter(gamma=g, max_iter=1, tol=0, random_state=C.NDRng(env))
            one.fit(np.concatenate([X[src], X[[tr]]]), sample_domain=np.array([1] * len(src) + [-1]))
            tot = tot + np.log(one.compute_weights(X[[te]], sample_domain=np.array([1]))[0] + EPS)
        ll.append(tot / 2)
    env.cover("selected")
    i = gammas.index(best[0])
    env.check_le(ll[1 - i], ll[i], "largest held-out likelihood")


INSTANCES = [
    ("step1", weights, dict(n=3, gamma=0.5, centers=2, iters=1), dict(cover=["fitted"], cost=3, time=60, query_ms=4000, tier="thorough")),
    ("step1_c1", weights, dict(n=3, gamma=0.5, centers=1, iters=1), dict(cover=["fitted"], cost=3, time=60, query_ms=4000)),
    ("step1_tol", weights, dict(n=3, gamma=0.5, centers=1, iters=1, tol=1e-6), dict(cover=["fitted"], cost=3, time=60, query_ms=4000)),
    ("step0", weights, dict(n=3, gamma="auto", centers=2, iters=0), dict(cover=["fitted"])),
    ("scale", weights, dict(n=2, gamma="scale", centers=1, iters=1), dict(cover=["fitted"], time=60)),
    ("step2", weights, dict(n=3, gamma=0.5, centers=1, iters=2), dict(cover=["fitted"], cost=2, time=60, query_ms=4000)),
    ("n4", weights, dict(n=4, gamma=0.5, centers=1, iters=1), dict(cover=["fitted"], cost=2, time=60, query_ms=4000)),
    ("clip", weights, dict(far=1, gamma=0.5, centers=7, iters=1, tol=1e3), dict(cover=["fitted"])),
    ("clip2", weights, dict(far=1, gamma=0.5, centers=7, iters=2, tol=0), dict(cover=["fitted"])),
    ("refit", refit, {}, dict(cover=["refitted"])),
    ("select", select, dict(n=3), dict(cover=["selected"], time=90, cost=3)),
    ("step2_c2", weights, dict(n=4, gamma=0.5, centers=2, iters=2), dict(cover=["fitted"], tier="thorough", cost=9)),
]
