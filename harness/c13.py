"""C13 importance weights: aligned with the rows and equal to what the adapter promises."""
import numpy as np
from scipy.stats import multivariate_normal
from sklearn.base import BaseEstimator

from harness import common as C
from skada import (DensityReweightAdapter, DiscriminatorReweightAdapter, GaussianReweightAdapter,
                   NearestNeighborReweightAdapter, make_da_pipeline)

ASSUMPTIONS = ["density estimator and domain classifier are recording stubs; exp and the Gaussian density are "
               "uninterpreted positive functions; nearest neighbours: euclidean, no ties"]


def _data(env, n=None, name="", lo=-1, hi=1, need_t=True, width=1, box=9):
    n = n or env.p["n"]
    d = env.ints("d" + name, n, lo, hi)
    src, tgt = C.sign_split(d)
    env.assume(len(src) > 0 and (len(tgt) > 0 or not need_t))
    lo, hi = box if isinstance(box, tuple) else (-box, box)
    return env.reals("X" + name, (n, width), lo, hi), d, src, tgt


def _weights_at(env, w, n, src, want, other, msg):
    env.check(w.shape == (n,), "one weight per row")
    for k, i in enumerate(src):
        env.check_eq(w[i], want[k], msg)
    for i in range(n):
        if i not in src:
            env.check_eq(w[i], other, "target rows")


def _run(env, adapter, X, d, formula, other=0.0):
    """fit_transform on (X, d), then weights of other data of the same domains"""
    n = len(d)
    src, tgt = C.sign_split(d)
    X0, d0 = env.snapshot(X), env.snapshot(d)
    Xo, extra = adapter.fit_transform(X, sample_domain=d)
    env.check_eq(Xo, X0, "features pass through unchanged")
    env.check_list(list(extra), ["sample_weight"], "only weights are emitted")
    _weights_at(env, extra["sample_weight"], n, src, formula(X, src), other, "weight of a source row")
    env.cover("fitted")
    env.check_eq(X, X0, "input untouched")
    env.check_eq(d, d0, "domains untouched")
    m = env.p["m"]
    if m:
        Z, e, s2, t2 = _data(env, m, "2", need_t=False, width=X.shape[1], box=env.p.get("box", 9))
        _weights_at(env, adapter.compute_weights(Z, sample_domain=e), m, s2, formula(Z, s2), other,
                    "weight of a new source row")
        env.cover("new rows")


class Dens(BaseEstimator):
    def fit(self, X, y=None):
        C.LOG.append(dict(name="dens", what="fit", X=X))
        self.t_ = X[0, 0] + X.shape[0] * 0.25
        return self

    def score_samples(self, X):
        return self.t_ * X[:, 0]


def density(env):
    X, d, src, tgt = _data(env, box=2)
    C.reset()
    ad = DensityReweightAdapter(weight_estimator=Dens())

    def formula(Z, rows):
        ts = X[src[0], 0] + len(src) * 0.25
        tt = X[tgt[0], 0] + len(tgt) * 0.25
        r = np.array([np.exp(tt * Z[i, 0] - ts * Z[i, 0]) for i in rows])
        return r / np.mean(r)
    _run(env, ad, X, d, formula)
    a, b = C.fits("dens")
    env.check_rows(a["X"], [X[i] for i in src], "source density fitted on the source rows")
    env.check_rows(b["X"], [X[i] for i in tgt], "target density fitted on the target rows")


def gaussian(env):
    X, d, src, tgt = _data(env, width=env.p["width"], box=2)
    reg = env.p["reg"]
    k = X.shape[1]

    def moments(rows):
        A = np.array([X[i] for i in rows])
        mu = A.mean(axis=0)
        S = (A - mu).T @ (A - mu) / len(rows)
        if reg is not None:
            S = (1 - reg) * S + reg * np.trace(S) / k * np.eye(k)
        return mu, S
    for s in (src, tgt):
        mu, S = moments(s)
        env.assume(np.linalg.det(S) > 0.01)

    def formula(Z, rows):
        out = []
        for i in rows:
            t = multivariate_normal.pdf(Z[i], *moments(tgt))
            s = multivariate_normal.pdf(Z[i], *moments(src))
            out.append(t / s)
        return out
    _run(env, GaussianReweightAdapter(reg=reg), X, d, formula)


class Disc(BaseEstimator):
    """P(class 1 | x) = x"""

    def fit(self, X, y):
        C.LOG.append(dict(name="disc", what="fit", X=X, y=y))
        self.classes_ = np.unique(y)
        return self

    def predict_proba(self, X):
        p = X[:, 0]
        return np.stack([1.0 - p, p], axis=1)


def discriminator(env):
    X, d, src, tgt = _data(env, box=(0.125, 0.875))
    C.reset()

    def formula(Z, rows):
        # odds of the classifier for "target", normalised to mean one
        r, = C.fits("disc")
        flip = bool(r["y"][src[0]] == 1)  # the classifier may use either coding
        odds = [(1.0 - Z[i, 0]) / Z[i, 0] if flip else Z[i, 0] / (1.0 - Z[i, 0]) for i in rows]
        tot = sum(odds) / len(odds)
        return [o / tot for o in odds]
    _run(env, DiscriminatorReweightAdapter(domain_classifier=Disc()), X, d, formula)
    r, = C.fits("disc")
    env.check_rows(r["X"], [X[i] for i in range(len(d))], "classifier sees every row")
    for i in range(len(d)):
        for j in range(len(d)):
            env.check((r["y"][i] == r["y"][j]) == ((i in src) == (j in src)), "its labels tell source from target")


def nearest(env):
    n, k = env.p["n"], env.p["k"]
    X, d, src, tgt = _data(env)
    env.assume(len(src) >= k)
    smooth = env.pick("laplace", [False, True])
    dist = {(t, s): np.abs(X[t, 0] - X[s, 0]) for t in tgt for s in src}
    for t in tgt:
        for a in range(len(src)):
            for b in range(a):
                env.assume(np.abs(dist[t, src[a]] - dist[t, src[b]]) > 0.001)
    want = [1.0 if smooth else 0.0 for _ in src]
    for t in tgt:
        near = sorted(range(len(src)), key=lambda a: sum(1 for b in src if bool(dist[t, b] < dist[t, src[a]])))[:k]
        want[min(near)] += 1.0
    ad = NearestNeighborReweightAdapter(n_neighbors=k, laplace_smoothing=smooth)
    Xo, extra = ad.fit_transform(X, sample_domain=d)
    env.check_eq(Xo, X, "features pass through unchanged")
    env.cover("fitted")
    w = extra["sample_weight"]
    env.check(w.shape == (n,), "one weight per row")
    for a, i in enumerate(src):
        env.check_eq(w[i], want[a], "number of target samples closest to the source sample")


def pipeline(env):
    """the weights reach the estimator next to their own row"""
    X, d, src, tgt = _data(env, box=2)
    n = len(d)
    y = env.ints("y", n, 0, 1)
    C.reset()
    pipe = make_da_pipeline(DensityReweightAdapter(weight_estimator=Dens()),
                            C.RecPredictor().set_fit_request(sample_weight=True))
    pipe.fit(X, y, sample_domain=d)
    env.cover("fitted")
    r, = C.fits("p")
    ts = X[src[0], 0] + len(src) * 0.25
    tt = X[tgt[0], 0] + len(tgt) * 0.25
    e = np.array([np.exp(tt * X[i, 0] - ts * X[i, 0]) for i in src])
    env.check_rows(r["X"], [X[i] for i in src], "fitted on the source rows")
    env.check_rows(r["y"], [y[i] for i in src], "with their labels")
    env.check_rows(r["w"], list(e / np.mean(e)), "and their weights")


_c = dict(cover=["fitted", "new rows"])
INSTANCES = [
    ("density", density, dict(n=3, m=2), dict(_c)),
    ("gaussian_1d", gaussian, dict(n=4, m=1, width=1, reg=None), dict(_c, cost=3, time=60)),
    ("gaussian_reg", gaussian, dict(n=4, m=1, width=1, reg=0.5), dict(_c, cost=3, time=60)),
    ("discriminator", discriminator, dict(n=3, m=2, box=(0.125, 0.875)), dict(_c, cost=2)),
    ("nearest", nearest, dict(n=4, k=1), dict(cover=["fitted"], cost=3)),
    ("nearest_k2", nearest, dict(n=4, k=2), dict(cover=["fitted"], cost=3)),
    ("pipeline", pipeline, dict(n=3), dict(cover=["fitted"])),
]
