"""C21 gradual adaptation walks from the source to the target along the transport plan."""
import numpy as np
from sklearn.base import BaseEstimator

from harness import common as C
from skada._gradual_da import GradualEstimator

ASSUMPTIONS = ["the transport solver is a stub returning an arbitrary plan; the classifier is a recording stub"]


class Base(BaseEstimator):
    """recording classifier: what it predicts depends on what it was last fitted with"""

    def __init__(self, name="base", gain=1.0):
        self.name = name
        self.gain = gain

    def fit(self, X, y=None):
        C.LOG.append(dict(name=self.name, what="fit", X=X.copy(), y=y.copy(), me=self))
        self.n_ = len([r for r in C.LOG if r["what"] == "fit"])
        self.t_ = y[0] + self.n_
        return self

    def predict(self, X):
        return X[:, 0] + self.t_

    def predict_proba(self, X):
        return np.stack([X[:, 0] + self.t_, 1.0 - X[:, 0] - self.t_], axis=1)

    predict_log_proba = predict_proba


class Iter(Base):
    def __init__(self, name="base", gain=1.0, max_iter=100):
        super().__init__(name, gain)
        self.max_iter = max_iter

    def fit(self, X, y=None):
        super().fit(X, y)
        C.LOG[-1]["iters"] = self.max_iter
        return self


class Plan(BaseEstimator):
    """stands for a POT transport: arbitrary coupling"""

    def __init__(self, env=None, gamma=None):
        self.env, self.gamma = env, gamma
        self.seen = []

    def __deepcopy__(self, memo):
        return self

    def fit(self, Xs=None, ys=None, Xt=None, yt=None):
        self.seen.append((Xs, ys, Xt, yt))
        self.coupling_ = self.gamma(len(Xs), len(Xt))
        return self


def _data(env):
    n = env.p["n"]
    x = env.reals("x", n, -4, 4)
    d = env.array(env.pick("d", env.p["d"]), np.int64)
    src, tgt = C.sign_split(d)
    # second column: source i is i+1, target j is 100*(j+1)
    ids = [0.0] * n
    for k, i in enumerate(src):
        ids[i] = k + 1.0
    for k, j in enumerate(tgt):
        ids[j] = 100.0 * (k + 1)
    X = np.stack([x, np.array(ids)], axis=1)
    y = env.ints("y", n, 0, 3)
    y = np.where(d >= 0, y, -1)
    return X, y, d, src, tgt


def _pairs(env, ids, t, N, ns, nt):
    """which (source, target) pair each interpolated id stands for"""
    out = []
    for v in ids:
        hit = [(i, j) for i in range(ns) for j in range(nt)
               if bool(abs(v - ((N - t) * (i + 1.0) / N + t * 100.0 * (j + 1) / N)) < 1e-6)]
        out.append(hit[0] if len(hit) == 1 else hit)
    return out


def run(env):
    C.reset()
    N, alpha, adv = env.p["steps"], env.p.get("alpha", 1), env.p["adv"]
    X, y, d, src, tgt = _data(env)
    ns, nt = len(src), len(tgt)
    G = {}

    def gamma(a, b):
        if "g" not in G:
            G["g"] = env.reals("G", (a, b), 0, 1)
        return G["g"]
    plan = Plan(env, gamma)
    base = Iter(max_iter=7) if env.p.get("iter") else Base()
    est = GradualEstimator(alpha=alpha, n_steps=N, ot_method=plan, base_estimator=base, advanced_ot_plan_sampling=adv,
                           save_estimators=True, save_intermediate_data=True)
    X0, y0 = env.snapshot(X), env.snapshot(y)
    env.check(est.fit(X, y, sample_domain=d) is est, "fit returns the estimator")
    env.cover("fitted")
    env.check_eq(X, X0, "the caller's data is untouched")
    env.check_eq(y, y0, "the caller's labels are untouched")
    env.check(len(plan.seen) == 1, "one plan is computed")
    Xs, ys, Xt, yt = plan.seen[0]
    env.check_rows(Xs, [X[i] for i in src], "the plan's source")
    env.check_rows(ys, [y[i] for i in src], "the plan's source labels")
    env.check_rows(Xt, [X[j] for j in tgt], "the plan's target")
    if yt is not None:
        env.check_rows(yt, [y[j] for j in tgt], "the plan's target labels")
    f = C.fits("base")
    env.check(len(f) == N + 1, "one fit on the source, then one per step")
    env.check_rows(f[0]["X"], [X[i] for i in src], "first fit: source rows")
    env.check_rows(f[0]["y"], [y[i] for i in src], "first fit: source labels")
    env.check(not hasattr(base, "t_") and all(r["me"] is not base for r in f), "the estimator given is not modified")
    if env.p.get("iter"):
        env.check(base.max_iter == 7, "the estimator given is not modified")
        env.check([r["iters"] for r in f] == [7 + 100 * k for k in range(N + 1)], "each step may iterate longer")
    g = G["g"]
    first = None
    last_t = y[src[0]] + 1
    for t in range(1, N + 1):
        r = f[t]
        m = len(r["X"])
        if t < N:
            prs = _pairs(env, r["X"][:, 1], t, N, ns, nt)
            env.check(all(isinstance(q, tuple) for q in prs), "each sample interpolates one source and one target row")
            if not all(isinstance(q, tuple) for q in prs):
                return
            env.check(len(set(prs)) == m, "no pair twice")
            if first is None:
                first = prs
            else:
                env.check(set(prs) == set(first), "the same pairs at every step")
            for k, (i, j) in enumerate(prs):
                env.check_eq(r["X"][k], (N - t) / N * X[src[i]] + t / N * X[tgt[j]], "interpolated features")
        else:
            js = [int(round(float(v))) // 100 - 1 for v in r["X"][:, 1]] if not env.symbolic else \
                [next(j for j in range(nt) if bool(abs(v - 100.0 * (j + 1)) < 1e-6)) for v in r["X"][:, 1]]
            for k, j in enumerate(js):
                env.check_eq(r["X"][k], X[tgt[j]], "the last step is on the target rows")
            if first is not None:
                env.check(sorted(js) == sorted(j for _, j in first), "the last step ends each pair at its target")
        for k in range(m):
            env.check_eq(r["y"][k], r["X"][k, 0] + last_t, "labels come from the classifier of the step before")
        last_t = r["y"][0] + t + 1
        if est.intermediate_data_ is not None:
            env.check_eq(est.intermediate_data_[t - 1][0], r["X"], "intermediate data is what was used")
            env.check_eq(est.intermediate_data_[t - 1][1], r["y"], "intermediate labels are what was used")
    if first is not None:
        out = [(i, j) for i in range(ns) for j in range(nt) if (i, j) not in first]
        if adv:
            for i in range(ns):
                env.check(any([bool(np.all(g[i, j] >= g[i])) for j in range(nt) if (i, j) in first]), "every source row starts a pair")
            for j in range(nt):
                env.check(any([bool(np.all(g[i, j] >= g[:, j])) for i in range(ns) if (i, j) in first]), "every target row ends a pair")
            for i, j in first:
                env.check(bool(np.all(g[i, j] >= g[i])) or bool(np.all(g[i, j] >= g[:, j])), "only leading pairs")
        else:
            k = min(alpha * (ns + nt), ns * nt)
            env.check(int(k) <= len(first) <= min(int(k) + 1, ns * nt), "as many pairs as announced")
            for a in first:
                for b in out:
                    env.check(g[a] >= g[b], "the pairs with the largest coupling are kept")
            if out:
                env.cover("cut")
    env.check(len(est.get_intermediate_estimators()) == N + 1, "every classifier is kept")
    Z = env.reals("Z", (2, 2), -4, 4)
    for k, e in enumerate(est.get_intermediate_estimators()):
        env.check_eq(e.predict(Z), Z[:, 0] + f[k]["y"][0] + k + 1, "intermediate classifiers are snapshots")
    env.check_eq(est.predict(Z), Z[:, 0] + last_t, "prediction uses the last classifier")
    env.check_eq(est.predict_proba(Z)[:, 0], Z[:, 0] + last_t, "probabilities use the last classifier")
    env.check_eq(est.predict_log_proba(Z)[:, 1], 1 - Z[:, 0] - last_t, "log probabilities use the last classifier")
    yy = env.ints("yy", 2, 0, 3)
    hits = sum(1 for k in range(2) if bool(Z[k, 0] + last_t == yy[k]))
    env.check_eq(est.score(Z, yy), hits / 2, "the score is the accuracy")


def unfitted(env):
    env.cover("reached")
    Z = env.reals("Z", (2, 2), -4, 4)
    for b in (None, Base()):
        est = GradualEstimator(base_estimator=b)
        for m in (est.predict, est.predict_proba, est.predict_log_proba, lambda Z: est.score(Z, np.zeros(2))):
            env.raises(lambda: m(Z), ValueError, "an unfitted estimator says so")


D3 = [(1, -1, -1), (-2, 3, 0), (2, -1, 1)]
D4 = [(1, -1, 2, -1), (-1, -2, 0, 0), (1, -1, -1, -2)]
_c = dict(cover=["fitted"], time=90)
INSTANCES = [
    ("top_n3", run, dict(n=3, d=D3, steps=2, adv=False, alpha=0.5), dict(_c, cover=["fitted"])),
    ("top_n4", run, dict(n=4, d=D4, steps=2, adv=False, alpha=0.5), dict(_c, cover=["fitted", "cut"], cost=3)),
    ("top_all", run, dict(n=4, d=D4[:1], steps=3, adv=False, alpha=1, iter=True), dict(_c, cost=3)),
    ("advanced", run, dict(n=3, d=D3, steps=2, adv=True), dict(_c, cost=2)),
    ("advanced_n4", run, dict(n=4, d=D4[:1], steps=2, adv=True, iter=True), dict(_c, cost=3)),
    ("unfitted", unfitted, {}, dict(cover=["reached"])),
    ("top_n5", run, dict(n=5, d=[(1, -1, 2, -1, 1)], steps=3, adv=False, alpha=0.5), dict(_c, tier="thorough", time=900)),
    ("advanced_n5", run, dict(n=5, d=[(1, -1, 2, -1, 1)], steps=2, adv=True), dict(_c, tier="thorough", time=900)),
]
