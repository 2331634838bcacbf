"""C22 DASVM: source rows leave, margin target rows enter with their pseudo-label, the last word is on the target."""
import math

import numpy as np
from sklearn.base import BaseEstimator

from harness import common as C
from skada._self_labeling import DASVMClassifier

ASSUMPTIONS = ["the classifier is a stub whose decision values after each fit are arbitrary (distinct, non zero)"]
ENV = [None]


class Svm(BaseEstimator):
    """binary classifier stub: an arbitrary decision value per (fit, row); rows are named by their second feature"""

    def __init__(self, C=1.0):
        self.C = C

    def fit(self, X, y):
        C.LOG.append(dict(name="svm", what="fit", X=X.copy(), y=y.copy(), me=self))
        self.k_ = len(C.LOG) - 1
        return self

    def decision_function(self, X):
        return np.stack([ENV[0].tab(self.k_, int(x[1])) for x in X])

    def predict(self, X):
        X = X if hasattr(X, "shape") else np.stack(list(X))
        return np.where(self.decision_function(X) > 0, 1, 0)

    def predict_proba(self, X):
        f = self.decision_function(X)
        return np.stack([1 - f, f], axis=1)

    def score(self, X, y, sample_weight=None):
        return self.decision_function(X)[0] * 2


class Table:
    def __init__(self, env, n):
        self.env, self.n, self.t = env, n, {}

    def tab(self, k, i):
        if k not in self.t and self.env.p.get("signs"):
            # the side of every target row is arbitrary at each fit, distances to the boundary are fixed
            env, n = self.env, self.n
            s = env.bools(f"s{k}", n)
            mag = np.array([0.9 - 0.15 * ((a * 2 + k) % n) for a in range(n)])
            self.t[k] = np.where(s, mag, -mag) if k else mag * np.array([1, 1, -1, 1, 1][:n])
        if k not in self.t:
            env, n = self.env, self.n
            v = env.reals(f"f{k}", n, -2, 2)
            for a in range(n):
                env.assume(np.abs(v[a]) > 0.01)
                env.assume(np.abs(np.abs(v[a]) - 1) > 0.01)
                for b in range(a):
                    env.assume(np.abs(v[a] - v[b]) > 0.01)
            self.t[k] = v
        return self.t[k][i]


def run(env):
    C.reset()
    k, iters, keep = env.p["k"], env.p["iters"], env.p.get("keep", True)
    d = env.array(env.pick("d", env.p["d"]), np.int64)
    n = len(d)
    src, tgt = C.sign_split(d)
    x = env.reals("x", n, -4, 4)
    X = np.stack([x, np.arange(n) * 1.0], axis=1)
    y = np.where(d >= 0, env.ints("y", n, 0, 1), -1)
    ENV[0] = T = Table(env, n)
    base = Svm()
    est = DASVMClassifier(base_estimator=base, k=k, max_iter=iters, save_estimators=keep, save_indices=keep)
    y0 = env.snapshot(y)
    env.check(est.fit(X, y, sample_domain=d) is est, "fit returns the estimator")
    env.check_eq(y, y0, "the caller's labels are untouched")
    f = C.fits("svm")
    env.check(all(r["me"] is not base for r in f), "the estimator given is not modified")
    env.cover("fitted")

    def same_fit(r, rows, labels, msg):
        ids = [int(v) for v in r["X"][:, 1]]
        env.check(sorted(ids) == sorted(rows), f"{msg}: rows {ids}, expected {sorted(rows)}")
        if sorted(ids) != sorted(rows):
            return
        for q, i in enumerate(ids):
            env.check_eq(r["X"][q, 0], x[i], f"{msg}: features unchanged")
            env.check_eq(r["y"][q], labels[i], f"{msg}: label of the row")

    def chosen(cands, value, kk):
        """kk times the best remaining candidate of each side"""
        out = []
        for _ in range(min(kk, math.ceil(len(cands) / 2))):
            left = [c for c in cands if c not in out]
            best = {max(left, key=lambda c: _Key(value(c))), max(left, key=lambda c: _Key(-value(c)))}
            out += sorted(best)
        return set(out)

    def pseudo(t, rows):
        return {i: (1 if bool(T.tab(t, i) > 0) else 0) for i in rows}

    same_fit(f[0], src, {i: y[i] for i in src}, "first fit on the source")
    gone, came = set(), set()
    log = [(set(), set())]

    def move(t):
        nonlocal gone, came
        gone = gone | chosen([i for i in src if i not in gone], lambda i: T.tab(t, i), k)
        margin = [j for j in tgt if j not in came and bool(np.abs(T.tab(t, j)) < 1)]
        came = came | chosen(margin, lambda j: T.tab(t, j), k)
        log.append((set(gone), set(came)))
        return margin

    margin = move(0)
    t = 0
    while t + 1 < iters and margin:
        t += 1
        lab = {i: y[i] for i in src}
        lab.update(pseudo(t - 1, came))
        if t >= len(f):
            env.check(False, "the alternation goes on while target rows remain in the margin")
            return
        same_fit(f[t], [i for i in src if i not in gone] + sorted(came), lab, f"fit {t}: remaining source and added target")
        old = pseudo(t - 1, came)
        new = pseudo(t, came)
        came = {j for j in came if old[j] == new[j]}
        margin = move(t)
        env.cover("iterated")
    env.check(len(f) == t + 2, "ends when the margin is empty or after max_iter steps")
    same_fit(f[-1], tgt, pseudo(t, tgt), "last fit: every target row with its pseudo-label")
    if keep:
        log.append((set(src), set(tgt)))
        env.check(len(est.estimators) == t + 2, "every classifier is kept")
        env.check(all(e.k_ == q for q, e in enumerate(est.estimators)), "kept classifiers are those of each step")
        for q, (g, c) in enumerate(log):
            env.check_list([bool(v) for v in est.indices_source_deleted[q]], [i in g for i in src], "deleted source rows")
            env.check_list([bool(v) for v in est.indices_target_added[q]], [j in c for j in tgt], "added target rows")
    last = f[-1]["me"].k_
    Z = np.stack([env.reals("z", 2, -3, 3), np.array([0.0, float(n - 1)])], axis=1)
    g = np.stack([T.tab(last, 0), T.tab(last, n - 1)])
    env.check_eq(est.decision_function(Z), g, "decisions of the last classifier")
    env.check_eq(est.predict(Z), np.where(g > 0, 1, 0), "predictions of the last classifier")
    env.check_eq(est.predict_proba(Z)[:, 1], g, "probabilities of the last classifier")
    env.check_eq(est.score(Z, np.array([0, 1])), 2 * g[0], "score of the last classifier")


class _Key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)

    def __gt__(self, o):
        return bool(self.v > o.v)


_c = dict(cover=["fitted"], time=90)
INSTANCES = [
    ("k1", run, dict(k=1, iters=2, d=[(1, -1, 1, -1)]), dict(_c, cover=["fitted", "iterated"], cost=3)),
    ("k1_orders", run, dict(k=1, iters=1, d=[(-1, 2, -3), (0, -1, 1), (-1, -2, 3, 3)]), dict(_c, cost=2)),
    ("k2", run, dict(k=2, iters=1, d=[(1, 1, 1, -1, -1)]), dict(_c, cost=3)),
    ("k2_tgt", run, dict(k=2, iters=1, d=[(1, -1, -1, -1, -1)]), dict(_c, cost=3)),
    ("empties", run, dict(k=3, iters=3, d=[(1, -1)]), dict(_c, cost=2)),
    ("k1_n3", run, dict(k=1, iters=3, d=[(1, -1, -1)], keep=False), dict(_c, cost=3)),
    ("signs", run, dict(k=1, iters=3, d=[(1, -1, -1, -1)], signs=True), dict(_c, cover=["fitted", "iterated"], cost=3, max_paths=20000)),
    ("signs4", run, dict(k=1, iters=4, d=[(1, -1, -1, -1)], signs=True, keep=False), dict(_c, cover=["fitted", "iterated"], cost=3, max_paths=20000, time=200, tier="thorough")),
    ("k1_t3", run, dict(k=1, iters=2, d=[(1, 1, -1, -1, -1)]), dict(_c, tier="thorough", time=900)),
    ("k2_t4", run, dict(k=2, iters=2, d=[(1, 1, 1, -1, -1, -1)]), dict(_c, tier="thorough", time=900)),
]
