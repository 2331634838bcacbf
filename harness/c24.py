"""C24 joint distribution OT solves the stated alternation and trains on the target rows."""
import warnings

import numpy as np
import ot
from sklearn.base import BaseEstimator

from harness import common as C
from skada import JDOTClassifier, JDOTRegressor
from skada._ot import (get_jdot_class_cost_matrix, get_tgt_loss_jdot_class, solve_jdot_classification,
                       solve_jdot_regression)

ASSUMPTIONS = ["the optimal transport solver is a stub returning an arbitrary non-negative plan and value; the base "
               "estimator is a stub with arbitrary outputs after each fit"]
CUR = [None]


class Tab:
    """arbitrary outputs: one value per (fit, row, column)"""

    def __init__(self, env, n, cols, lo, hi):
        self.env, self.n, self.cols, self.lo, self.hi, self.t = env, n, cols, lo, hi, {}

    def __call__(self, k, i):
        if k not in self.t:
            self.t[k] = self.env.reals(f"o{k}", (self.n, self.cols), self.lo, self.hi)
        return self.t[k][i]


class Base(BaseEstimator):
    def __init__(self, depth=1):
        self.depth = depth

    def fit(self, X, y, **kw):
        C.LOG.append(dict(name="base", what="fit", X=X.copy(), y=y.copy(), kw=kw, me=self))
        self.k_ = len(C.LOG) - 1
        return self

    def _rows(self, X):
        return np.stack([CUR[0](self.k_, int(x[1])) for x in X])

    def score(self, X, y, sample_weight=None):
        C.LOG.append(dict(name="base", what="score", X=X, y=y, w=sample_weight))
        return self._rows(X)[0, 0] * 2


class Reg(Base):
    def predict(self, X):
        return self._rows(X)[:, 0]


class LogProba(Base):
    def predict(self, X):
        return self._rows(X)[:, 1]

    def predict_log_proba(self, X):
        return self._rows(X)

    def predict_proba(self, X):
        return 2 * self._rows(X)


class Proba(Base):
    predict = LogProba.predict

    def predict_proba(self, X):
        return self._rows(X)


class Dec(Base):
    predict = LogProba.predict

    def decision_function(self, X):
        r = self._rows(X)
        return r[:, 0] if r.shape[1] == 1 else r


class Sol:
    def __init__(self, plan, value):
        self.plan, self.value = plan, value


class Ot:
    def __init__(self, env):
        self.calls = []

        def dist(x1, x2=None, metric="sqeuclidean", **k):
            x2 = x1 if x2 is None else x2
            return np.stack([np.stack([np.sum((a - b) ** 2) for b in x2]) for a in x1])

        def solve(M, a=None, b=None, *r, **k):
            t = len(self.calls)
            G = env.reals(f"G{t}", M.shape, 0, 1)
            for k in range(M.shape[1]):
                env.assume(np.sum(G[:, k]) > 0.01)
            v = env.real(f"v{t}", 0, 5)
            s = Sol(G, v)
            self.calls.append(dict(M=M, a=a, b=b, G=G, v=v, s=s))
            return s
        env.patch(ot, "dist", dist)
        env.patch(ot, "solve", solve)


XS = [[0.0, 2.0, 1.0, -1.0, 3.0], [1.0, -1.0, 0.5, 4.0, 2.0]]


def _problem(env, disc):
    d = env.array(env.pick("d", env.p["d"]), np.int64)
    n = len(d)
    src, tgt = C.sign_split(d)
    x = env.array(env.pick("x", env.p.get("x", XS))[:n], np.float64)
    X = np.stack([x, np.arange(n) * 1.0], axis=1)
    if disc:
        y = env.ints("y", n, *env.p.get("y", (1, 2)))
    else:
        y = env.reals("y", n, -3, 3)
    w = env.array(env.pick("w", [[0.5, 2, 1, 1.5, 1], [1, 1, 4, 0.25, 2]])[:n], np.float64) if env.p["w"] else None
    return X, y, d, w, src, tgt


def _features_cost(X, src, tgt):
    M = {(a, b): np.sum((X[i] - X[j]) ** 2) for a, i in enumerate(src) for b, j in enumerate(tgt)}
    m = sum(M.values()) / len(M)
    return {k: v / m for k, v in M.items()}


def _marginals(env, c, w, src, tgt):
    for side, got in ((src, c["a"]), (tgt, c["b"])):
        tot = sum(w[i] for i in side) if w is not None else len(side)
        env.check_rows(got, [(w[i] if w is not None else 1.0) / tot for i in side], "marginals are the normalised weights")


def _loop(env, o, warned, alpha, tol, iters, label_cost, target_loss, est, sol, src, tgt, Mf, f, lot, lt, w):
    """what is the same for regression and classification: costs, losses and when it stops"""
    T = len(o.calls)
    env.check(1 <= T <= iters and len(f) == T, "one plan and one fit per iteration")
    if len(f) != T:
        return
    env.check(len(lot) == T and len(lt) == T, "one loss per iteration")
    prev = None
    for t, c in enumerate(o.calls):
        _marginals(env, c, w, src, tgt)
        Ml = {k: label_cost(t - 1, *k) for k in Mf} if t else None
        for k in Mf:
            env.check_eq(c["M"][k], (1 - alpha) * Mf[k] + (alpha * Ml[k] if t else 0.0), "cost of the joint transport")
        loss = c["v"]
        if t == 0:
            L0 = {k: label_cost(-1, *k) for k in Mf}
            loss = loss + alpha * sum(L0[k] * c["G"][k] for k in Mf)
        env.check_eq(lot[t], loss, "transport loss")
        tl = target_loss(t)
        env.check_eq(lt[t], tl, "target loss", tol=1e-5)
        if prev is not None:
            stop = bool(abs(loss - prev[0]) < tol) or bool(abs(tl - prev[1]) < tol)
            env.check(stop == (t == T - 1) or t == iters - 1, "stops as soon as a loss settles, not before")
            if t == T - 1:
                env.check(warned == (not stop), "a warning tells when it has not settled")
                env.cover("settled" if stop else "not settled")
        prev = (loss, tl)
    if iters == 1:
        env.check(warned, "a warning tells when it has not settled")
    elif T == 1:
        env.check(False, "stops as soon as a loss settles, not before")
    env.check(sol is o.calls[-1]["s"], "the last plan is returned")
    env.check(est is f[-1]["me"], "the last estimator is returned")


def _call(fn):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r = fn()
    return r, any("iteration" in str(m.message) for m in ws)


def regression(env):
    C.reset()
    alpha, tol, iters = 0.25, 1e-2, env.p["iters"]
    X, y, d, w, src, tgt = _problem(env, False)
    nt = len(tgt)
    o = Ot(env)
    CUR[0] = tab = Tab(env, len(d), 1, -3, 3)
    base = Reg(depth=3)
    if env.p.get("est", True):
        j = JDOTRegressor(base, alpha=alpha, n_iter_max=iters, tol=tol)
        y0 = env.snapshot(y)
        r, warned = _call(lambda: j.fit(X, y, sample_domain=d, sample_weight=w))
        env.check(r is j, "fit returns the estimator")
        env.check_eq(y, y0, "the caller's labels are untouched")
        est, lot, lt, sol = j.estimator_, j.lst_loss_ot_, j.lst_loss_tgt_labels_, j.sol_
        extra = {}
    else:
        extra = dict(foo=4)
        (est, lot, lt, sol), warned = _call(lambda: solve_jdot_regression(
            base, X[src], y[src], X[tgt], alpha=alpha, ws=None if w is None else w[src], wt=None if w is None else w[tgt],
            n_iter_max=iters, tol=tol, foo=4))
    env.cover("done")
    f = C.fits("base")
    env.check(est.depth == 3 and not hasattr(base, "k_"), "a copy of the base estimator is fitted")
    yth = []
    for t, c in enumerate(o.calls):
        if t >= len(f):
            break
        env.check_rows(f[t]["X"], [X[q] for q in tgt], "trained on the target rows")
        tot = sum(w[i] for i in tgt) if w is not None else nt
        yt = [sum(y[i] * c["G"][a, b] for a, i in enumerate(src)) * tot / (w[q] if w is not None else 1.0)
              for b, q in enumerate(tgt)]
        env.check_rows(f[t]["y"], yt, "trained on the transported labels")
        yth.append(yt)
        kw = f[t]["kw"]
        env.check(set(kw) - {"sample_weight"} == set(extra) and ("sample_weight" in kw) == (w is not None), "fit arguments")
        if w is not None:
            env.check_rows(kw["sample_weight"], [w[q] for q in tgt], "trained with the target weights")
    pred = lambda t, b: tab(f[t]["me"].k_ if t == len(f) - 1 else t, tgt[b])[0]  # noqa: E731
    cost = lambda t, a, b: (y[src[a]] - (pred(t, b) if t >= 0 else 0.0)) ** 2  # noqa: E731
    tl = lambda t: sum((yth[t][b] - pred(t, b)) ** 2 for b in range(nt)) / nt  # noqa: E731
    _loop(env, o, warned, alpha, tol, iters, cost, tl, est, sol, src, tgt, _features_cost(X, src, tgt), f, lot, lt, w)
    if env.p.get("est", True):
        k = f[-1]["me"].k_
        env.check_eq(j.predict(X), np.stack([tab(k, i)[0] for i in range(len(d))]), "predictions of that estimator")
        env.check_eq(j.predict(X[tgt], sample_domain=d[tgt], allow_source=True), np.stack([tab(k, i)[0] for i in tgt]),
                     "predictions of that estimator")
        env.check_eq(j.score(X, y, sample_weight=w), 2 * tab(k, 0)[0], "score of that estimator")
        s = C.calls("base", "score")[-1]
        env.check_eq(s["X"], X, "scored on the rows given")
        if w is not None:
            env.check_eq(s["w"], w, "scored with the weights given")


KINDS = dict(logp=(LogProba, "multinomial"), prob=(Proba, "multinomial"), dec=(Dec, "hinge"), bin=(Dec, "hinge"))


def _class_cost(kind, out, c, K):
    """loss of predicting `out` (row of outputs) for class number c"""
    if kind == "logp":
        return -out[c]
    if kind == "prob":
        return -np.log(out[c] + 1e-16)
    if kind == "bin":
        out = [-out[0], out[0]]
    return sum(np.maximum(0, 1 - (1 if k == c else -1) * out[k]) for k in range(K))


def classification(env):
    C.reset()
    alpha, tol, iters, kind = 0.25, 1e-2, env.p["iters"], env.p["kind"]
    X, y, d, w, src, tgt = _problem(env, True)
    labels = sorted({int(y[i]) for i in src})
    K = len(labels)
    env.assume(K == env.p.get("K", K))
    nt = len(tgt)
    thr = 1e-6
    o = Ot(env)
    cols = 1 if kind == "bin" else K
    CUR[0] = tab = Tab(env, len(d), cols, *((0.01, 1) if kind == "prob" else (-3, 3)))
    cl, metric = KINDS[kind]
    base = cl(depth=3)
    j = JDOTClassifier(base, alpha=alpha, metric=metric, n_iter_max=iters, tol=tol, thr_weights=thr)
    y0 = env.snapshot(y)
    r, warned = _call(lambda: j.fit(X, y, sample_domain=d, sample_weight=w))
    env.check(r is j, "fit returns the estimator")
    env.check_eq(y, y0, "the caller's labels are untouched")
    env.cover("done")
    est, lot, lt, sol = j.estimator_, j.lst_loss_ot_, j.lst_loss_tgt_labels_, j.sol_
    f = C.fits("base")
    env.check(est.depth == 3 and not hasattr(base, "k_"), "a copy of the base estimator is fitted")
    out = lambda t, q: tab(t, q)  # noqa: E731
    kept = []
    for t, c in enumerate(o.calls):
        if t >= len(f):
            break
        W = {(b, k): nt * sum((c["G"][a, b] if int(y[i]) == labels[k] else 0.0) for a, i in enumerate(src))
             for b in range(nt) for k in range(K)}
        top = None
        for v in W.values():
            top = v if top is None or bool(v > top) else top
        want = {(tgt[b], labels[k]): v for (b, k), v in W.items() if bool(v > thr * top)}
        got = [(int(f[t]["X"][q, 1]), int(f[t]["y"][q])) for q in range(len(f[t]["X"]))]
        env.check(sorted(got) == sorted(want), "trained on each target row with each class it receives mass from")
        env.check(set(f[t]["kw"]) == {"sample_weight"}, "fit arguments")
        if sorted(got) == sorted(want):
            for q, key in enumerate(got):
                env.check_eq(f[t]["X"][q], X[key[0]], "features unchanged")
                env.check_eq(f[t]["kw"]["sample_weight"][q], want[key], "weighted by the mass received")
        kept.append(want)
    # until a classifier exists the label cost is the same for all
    cost = lambda t, a, b: 10.0 if t < 0 else _class_cost(kind, out(t, tgt[b]), labels.index(int(y[src[a]])), K)  # noqa
    tl = lambda t: sum(v * _class_cost(kind, out(t, q), labels.index(k), K) for (q, k), v in kept[t].items()) / nt  # noqa
    _loop(env, o, warned, alpha, tol, iters, cost, tl, est, sol, src, tgt, _features_cost(X, src, tgt), f, lot, lt, w)
    k = f[-1]["me"].k_
    if kind != "bin":
        env.check_eq(j.predict(X), np.stack([tab(k, i)[1] if cols > 1 else 0 for i in range(len(d))]) if cols > 1 else None,
                     "predictions of that estimator") if cols > 1 else None
    if kind == "prob":
        env.check_eq(j.predict_proba(X), np.stack([tab(k, i) for i in range(len(d))]), "probabilities of that estimator")
    env.check_eq(j.score(X, y, sample_weight=w), 2 * tab(k, 0)[0], "score of that estimator")


def costs(env):
    """the two class losses, for every prediction"""
    C.reset()
    kind, K, ns, nt = env.p["kind"], env.p["K"], 2, 2
    cols = 1 if kind == "bin" else K
    CUR[0] = tab = Tab(env, nt, cols, *((0.0, 1) if kind == "prob" else (-3, 3)))
    cl, metric = KINDS[kind]
    e = cl()
    Xt = np.stack([env.reals("x", nt, -3, 3), np.arange(nt) * 1.0], axis=1)
    e.fit(Xt, np.zeros(nt))
    c = [env.pick(f"c{i}", range(K)) for i in range(ns)]
    Ys = np.array([[1.0 if k == ci else 0.0 for k in range(K)] for ci in c])
    M = get_jdot_class_cost_matrix(Ys, Xt, e, metric=metric)
    env.cover("done")
    env.check(M.shape == (ns, nt), "one cost per source and target row")
    for a in range(ns):
        for b in range(nt):
            env.check_eq(M[a, b], _class_cost(kind, tab(0, b), c[a], K), "label cost of a pair")
    wh = env.reals("wh", nt, 0, 2)
    v = get_tgt_loss_jdot_class(Xt, Ys, wh, e, metric=metric)
    env.check_eq(v, sum(wh[b] * _class_cost(kind, tab(0, b), c[b], K) for b in range(nt)), "weighted target loss")


D4 = [(1, -1, 2, -1), (-1, 0, -2, 3)]
_c = dict(cover=["done"], time=80, query_ms=5000)
INSTANCES = [
    ("reg", regression, dict(iters=2, d=D4, w=False), dict(_c, cover=["done", "settled", "not settled"], cost=3)),
    ("reg_w", regression, dict(iters=2, d=D4[:1], x=XS[:1], w=True), dict(_c, cost=3)),
    ("reg_fn", regression, dict(iters=1, d=D4, w=True, est=False), dict(_c)),
    ("reg_3", regression, dict(iters=3, d=[(1, -1, 1)], w=False, x=XS[:1]), dict(_c, cost=3)),
    ("cls_logp", classification, dict(iters=2, d=[(1, -1, 2)], K=2, x=XS[:1], w=False, kind="logp"), dict(_c, cost=4)),
    ("cls_prob", classification, dict(iters=2, d=[(-1, 1, 2)], K=2, x=XS[:1], w=True, kind="prob"), dict(_c, cost=4)),
    ("cls_dec", classification, dict(iters=1, d=[(1, -1, 2, 1)], y=(0, 2), K=3, x=XS[:1], w=False, kind="dec"), dict(_c, cost=4)),
    ("cls_bin", classification, dict(iters=2, d=[(1, -1, 2)], x=XS[:1], K=2, w=False, kind="bin"), dict(_c, cost=4)),
    ("cls_one", classification, dict(iters=1, d=D4, y=(1, 3), x=XS[:1], w=True, kind="logp"), dict(_c)),
    ("cost_logp", costs, dict(kind="logp", K=3), dict(_c)),
    ("cost_prob", costs, dict(kind="prob", K=2), dict(_c)),
    ("cost_dec", costs, dict(kind="dec", K=3), dict(_c)),
    ("cost_bin", costs, dict(kind="bin", K=2), dict(_c)),
    ("cls_logp4", classification, dict(iters=2, d=D4[:1], K=2, x=XS[:1], w=False, kind="logp"), dict(_c, tier="thorough", time=900)),
    ("cls_dec2", classification, dict(iters=2, d=[(1, -1, 2, 1)], y=(0, 2), K=3, x=XS[:1], w=False, kind="dec"), dict(_c, tier="thorough", time=900)),
    ("reg_n5", regression, dict(iters=3, d=[(1, -1, 1, -1, 1)], w=True, x=XS[:1]), dict(_c, tier="thorough", time=900)),
    ("cls_n5", classification, dict(iters=2, d=[(1, -1, 1, -1, 1)], w=True, x=XS[:1], kind="logp"), dict(_c, tier="thorough", time=900)),
]
