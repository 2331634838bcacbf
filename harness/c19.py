"""C19 scorers evaluate the target (or the importance weighted source) and never look at target labels."""
import warnings

import numpy as np
from sklearn.base import BaseEstimator
from sklearn.pipeline import Pipeline

from harness import common as C
from harness.common import NDRng
from skada.metrics import (CircularValidation, DeepEmbeddedValidation, ImportanceWeightedScorer, MaNoScorer,
                           MixValScorer, PredictionEntropyScorer, SoftNeighborhoodDensity, SupervisedScorer)

ASSUMPTIONS = ["estimators are recording stubs whose probabilities are functions of the row; log and exp are "
               "uninterpreted (positive, monotone) functions"]


def _eq_const(a, b):
    return float(a) == float(b)


class Est(BaseEstimator):
    __metadata_request__score = {"sample_weight": True, "sample_domain": True}

    def __init__(self, k=0):
        self.k = k

    def fit(self, X, y=None, sample_domain=None):
        C.LOG.append(dict(name="est", what="fit", X=X, y=y, d=sample_domain))
        return self

    def predict(self, X, sample_domain=None, allow_source=False):
        C.LOG.append(dict(name="est", what="predict", X=X, d=sample_domain, allow=allow_source))
        return X[:, 0]

    def predict_proba(self, X, sample_domain=None, allow_source=False):
        C.LOG.append(dict(name="est", what="proba", X=X, d=sample_domain, allow=allow_source))
        return np.stack([X[:, 0], 1.0 - X[:, 0]], axis=1)

    def score(self, X, y, sample_weight=None, sample_domain=None, allow_source=False):
        C.LOG.append(dict(name="est", what="score", X=X, y=y, w=sample_weight, d=sample_domain))
        t = 0.0
        for k in range(X.shape[0]):
            t = t + (k + 1) * X[k, 0] * (1 if sample_weight is None else sample_weight[k]) + (k + 2) * 3 * y[k]
        return t


def _data(env, n=None, lo=0.125, hi=0.875, masked=-1, name=""):
    n = n or env.p["n"]
    d = env.array([env.pick(f"d{name}{i}", env.p.get("doms", [1, 2, -1])) for i in range(n)], np.int64)
    src, tgt = C.sign_split(d)
    env.assume(len(src) > 0 and len(tgt) > 0)
    X = env.reals("X" + name, (n, 1), lo, hi)
    y = env.array([masked if i in tgt else env.pick(f"y{name}{i}", [0, 1]) for i in range(n)], np.int64)
    return X, y, d, src, tgt


def supervised(env):
    n = env.p["n"]
    X, y, d, src, tgt = _data(env)
    tl = env.ints("tl", n, 0, 3)
    up = bool(env.bool("up"))
    C.reset()
    out = SupervisedScorer(greater_is_better=up)(Est(), X, y, sample_domain=d, target_labels=tl)
    want = sum((k + 1) * X[i, 0] + (k + 2) * 3 * tl[i] for k, i in enumerate(tgt))
    env.check_eq(out, want if up else -want, "score of the target rows with their true labels")
    env.check(len(C.LOG) == 1, "one evaluation")
    env.cover("scored")
    seen = []

    def func(est, X_, y_, **kw):
        seen.append((X_, y_, kw.get("sample_domain")))
        return 2.5
    out = SupervisedScorer(func)(Est(), X, y, sample_domain=d, target_labels=tl)
    env.check_eq(out, 2.5, "custom scoring is used")
    env.check_rows(seen[0][0], [X[i] for i in tgt], "on the target rows")
    env.check_rows(seen[0][1], [tl[i] for i in tgt], "with the target labels")
    env.check_rows(seen[0][2], [d[i] for i in tgt], "and domains")


class Dens(BaseEstimator):
    def __init__(self, scale=0.5):
        self.scale = scale

    def fit(self, X, y=None):
        C.LOG.append(dict(name="dens", what="fit", X=X))
        self.t_ = C.tag(X)
        return self

    def score_samples(self, X):
        return self.scale * self.t_ * X[:, 0]


def importance(env):
    X, y, d, src, tgt = _data(env)
    up = bool(env.bool("up"))
    C.reset()
    out = ImportanceWeightedScorer(Dens(), greater_is_better=up)(Est(), X, y, sample_domain=d)
    f = C.fits("dens")
    env.check(len(f) == 2, "one density per side")
    env.check_rows(f[0]["X"], [X[i] for i in src], "source density")
    env.check_rows(f[1]["X"], [X[i] for i in tgt], "target density")
    ts, tt = (0.5 * C.tag_of([X[i] for i in r]) for r in (src, tgt))
    r = [np.exp(tt * X[i, 0] - ts * X[i, 0]) for i in src]
    s, = C.calls("est", "score")
    env.check_rows(s["X"], [X[i] for i in src], "scored on the source rows")
    env.check_rows(s["y"], [y[i] for i in src], "with the source labels")
    env.check_rows(s["d"], [d[i] for i in src], "and domains")
    tot = sum(r)
    for k in range(len(src)):
        env.check_eq(s["w"][k] * tot, r[k], "weighted by target over source density")
    want = sum((k + 1) * X[i, 0] * s["w"][k] + (k + 2) * 3 * y[i] for k, i in enumerate(src))
    env.check_eq(out, want if up else -want, "the weighted score is returned")
    env.cover("scored")

    class NoWeight(BaseEstimator):
        def fit(self, X, y=None):
            return self

        def score(self, X, y):
            return 0.0
    env.raises(lambda: ImportanceWeightedScorer(Dens())(NoWeight(), X, y, sample_domain=d), ValueError,
               "an estimator that cannot be weighted is rejected")


class LogEst(Est):
    def predict_log_proba(self, X, sample_domain=None, allow_source=False):
        p = self.predict_proba(X)
        return np.where(p <= 0, -np.inf, p - 1.0)


class LogEst3(LogEst):
    def predict_proba(self, X, sample_domain=None, allow_source=False):
        C.LOG.append(dict(name="est", what="proba", X=X, d=sample_domain, allow=allow_source))
        return np.stack([X[:, 0], (1.0 - X[:, 0]) / 2, (1.0 - X[:, 0]) / 2], axis=1)


def entropy(env):
    three = env.p.get("three", False)
    red = env.p["reduction"]
    logp = env.p["logp"]
    X, y, d, src, tgt = _data(env, lo=0.0 if logp else 0.125, hi=1.0 if logp else 0.875)
    up = bool(env.bool("up"))
    C.reset()
    est = (LogEst3 if three else LogEst if logp else Est)()
    out = PredictionEntropyScorer(greater_is_better=up, reduction=red)(est, X, y, sample_domain=d)
    c = C.calls("est", "proba")[0]
    env.check_rows(c["X"], [X[i] for i in tgt], "evaluated on the target rows")
    env.check_rows(c["d"], [d[i] for i in tgt], "with their domains")
    s = 1.0 if up else -1.0

    def h(p):
        if logp:
            return -p * (p - 1.0)          # zero where p = 0 too
        return -p * np.log(p + 1e-7)
    q = [(1.0 - X[i, 0]) for i in range(len(X))]
    e = [[h(X[i, 0])] + ([h(q[i] / 2)] * 2 if three else [h(q[i])]) for i in tgt]
    nc = 3 if three else 2
    if red == "none":
        env.check(np.shape(out) == (len(tgt), nc), "one value per target row and class")
        for k in range(len(tgt)):
            for j in range(nc):
                env.check_eq(out[k, j], s * e[k][j], "entropy of the prediction")
    else:
        tot = sum(v for r in e for v in r)
        env.check_eq(out, s * (tot if red == "sum" else tot / (2 * len(tgt))), f"{red} of the entropies")
    env.cover("scored")


def density(env):
    env.p["doms"] = [1, -1]
    X, y, d, src, tgt = _data(env)
    X = env.array([[env.pick(f"x{i}", [0.2, 0.5, 0.9])] for i in range(len(d))], np.float64)
    T = 0.5
    C.reset()
    up = bool(env.bool("up"))
    out = SoftNeighborhoodDensity(T=T, greater_is_better=up)(Est(), X, y, sample_domain=d)
    c = C.calls("est", "proba")[0]
    env.check_rows(c["X"], [X[i] for i in tgt], "evaluated on the target rows")
    P = [[X[i, 0], 1.0 - X[i, 0]] for i in tgt]
    nrm = [np.sqrt(p[0] * p[0] + p[1] * p[1]) for p in P]
    m = len(tgt)
    tot = 0.0
    for a in range(m):
        s = [sum((P[a][k] / nrm[a]) * (P[b][k] / nrm[b]) for k in range(2)) / T for b in range(m)]
        s[a] = -s[a]
        mx = s[0]
        for v in s[1:]:
            mx = np.maximum(mx, v)
        e = [np.exp(v - mx) for v in s]
        z = sum(e)
        tot = tot - sum((v / z) * np.log(v / z) for v in e)
    env.check_eq(out, (1 if up else -1) * tot / m, "mean entropy of the neighbourhood distributions", tol=1e-5)
    env.cover("scored")


class Clf(BaseEstimator):
    """domain classifier stub"""

    def fit(self, X, y=None):
        C.LOG.append(dict(name="clf", what="fit", X=X, y=y))
        self.classes_ = np.array([0, 1])
        return self

    def predict_proba(self, X):
        return np.stack([X[:, 0], 0.0 * X[:, 0] + 4.0], axis=1)


class Feat(BaseEstimator):
    def fit(self, X, y=None):
        return self

    def transform(self, X):
        C.LOG.append(dict(name="feat", what="transform", X=X))
        return 2.0 * X + 1.0

    def fit_transform(self, X, y=None):
        return self.transform(X)


class Pipe(Pipeline):
    """a fitted two-step pipeline"""

    def __init__(self, steps, transform_input=None, memory=None, verbose=False):
        super().__init__(steps)

    def predict_proba(self, X, sample_domain=None, allow_source=False):
        C.LOG.append(dict(name="pipe", what="proba", X=X, d=sample_domain, allow=allow_source))
        return np.stack([X[:, 0], 1.0 - X[:, 0]], axis=1)

    def __getitem__(self, k):
        return self.steps[0][1]

    def __sklearn_is_fitted__(self):
        return True


def dev(env):
    n = env.p["n"]
    d = env.array(env.pick("d", env.p["D"]), np.int64)
    src, tgt = C.sign_split(d)
    x = env.reals("X", n, 0.125, 0.875)
    # the second feature identifies the row
    X = np.stack([x, env.array([float(i) for i in range(n)])], axis=1)
    yp = env.pick("y", [[0, 1, 1, 0, 1], [1, 0, 0, 0, 1], [1, 1, 1, 1, 0]])
    y = env.array([-1 if i in tgt else yp[i] for i in range(n)], np.int64)
    shape = env.p["loss"]
    losses = []

    def loss(yt, yp):
        losses.append((yt, yp))
        v = yp[:, 0] * 2.0 + yt
        return v.reshape(-1, 1) if shape == "column" else v
    C.reset()
    est = Pipe([("feat", Feat()), ("clf", Est())])
    up = bool(env.bool("up"))
    sc = DeepEmbeddedValidation(Clf(), loss_func=None if shape == "default" else loss, random_state=NDRng(env),
                                greater_is_better=up)
    out = sc(est, X, y, sample_domain=d)
    env.check(np.ndim(out) == 0, "a scalar")
    pr, = C.calls("pipe", "proba")
    val = [int(r[1]) for r in pr["X"]]
    env.check(len(set(val)) == len(val) and all(i in src for i in val), "validated on distinct source rows")
    env.check_rows(pr["d"], [d[i] for i in val], "with their domains")
    train = [i for i in src if i not in val]
    f, = C.fits("clf")
    fid = [int((float(r[1]) - 1) / 2) for r in f["X"]]
    env.check(sorted(fid) == sorted(train + tgt), "the domain classifier sees the remaining source rows and the target")
    for k, i in enumerate(fid):
        env.check_eq(f["X"][k, 0], 2.0 * X[i, 0] + 1.0, "their features")
        env.check(int(f["y"][k]) == (1 if i in train else 0), "source rows labelled 1, target rows labelled 0")
    ratio = len(train) / len(tgt)
    W = [ratio * (2.0 * X[i, 0] + 1.0) / 4.0 for i in val]
    if shape == "default":
        L = [-np.log(np.clip(X[i, 0] if int(y[i]) == 0 else 1.0 - X[i, 0], 1e-15, 1 - 1e-15)) for i in val]
    else:
        env.check_rows(losses[0][0], [y[i] for i in val], "loss on the validation labels")
        L = [2.0 * X[i, 0] + y[i] for i in val]
    m = len(val)
    WL = [a * b for a, b in zip(W, L)]
    mw, ml = sum(W) / m, sum(WL) / m
    cov = sum((a - ml) * (b - mw) for a, b in zip(WL, W)) / (m - 1)
    var = sum((b - mw) * (b - mw) for b in W) / (m - 1)
    s = 1.0 if up else -1.0
    env.assume(var > 1e-2)
    # risk = mean(WL) + eta mean(W) - eta with eta = -cov/var
    env.check_eq(s * out, ml - cov / var * mw + cov / var, "importance weighted risk with control variate", tol=1e-4)
    env.cover("scored")


class Circ(Est):
    def predict(self, X, sample_domain=None, allow_source=False):
        C.LOG.append(dict(name="est", what="predict", X=X, d=sample_domain))
        if self.k == 0:
            return np.where(X[:, 0] > 0.5, self.lab[1], self.lab[0])
        return X[:, 0] > 0.25

    def fit(self, X, y=None, sample_domain=None):
        C.LOG.append(dict(name="est", what="fit", X=X, y=y, d=sample_domain))
        self.k = 1
        return self


class CircC(Circ):
    lab = (3, 1)

    def predict(self, X, sample_domain=None, allow_source=False):
        r = super().predict(X, sample_domain)
        return r if self.k == 0 else r.astype(np.int64)


class CircR(Circ):
    lab = (0.25, 1.5)

    def predict(self, X, sample_domain=None, allow_source=False):
        r = super().predict(X, sample_domain)
        return r if self.k == 0 else r * 0.5 + 0.125


def circular(env):
    n = env.p["n"]
    reg = env.p["reg"]
    d = env.array([env.pick(f"d{i}", env.p["doms"]) for i in range(n)], np.int64)
    src, tgt = C.sign_split(d)
    env.assume(len(src) > 0 and len(tgt) > 0)
    X = env.reals("X", (n, 1), 0, 1)
    vals = [(np.nan if reg else -1) if i in tgt else env.pick(f"y{i}", [0.5, 2.25] if reg else [1, 3]) for i in range(n)]
    y = env.array(vals, np.float64 if reg else np.int64)
    seen = []

    def scorer(a, b):
        seen.append((a, b))
        return 0.75
    C.reset()
    est = (CircR if reg else CircC)()
    up = bool(env.bool("up"))
    y0, d0 = env.snapshot(y), env.snapshot(d)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = CircularValidation(source_scorer=scorer, greater_is_better=up)(est, X, y, sample_domain=d)
    env.check_eq(out, 0.75 if up else -0.75, "the score on the source is returned")
    env.check(est.k == 0, "the scored estimator is not refitted")
    env.check_eq(y, y0, "labels untouched")
    env.check_eq(d, d0, "domains untouched")
    p = C.calls("est", "predict")
    env.check_rows(p[0]["X"], [X[i] for i in tgt], "target labels are predicted")
    lab = est.lab
    pred = [lab[1] if bool(X[i, 0] > 0.5) else lab[0] for i in tgt]
    env.check_rows(seen[0][0], [y[i] for i in src], "compared with the true source labels")
    if len(set(pred)) == 1:
        env.cover("constant")
        env.check(len(C.fits("est")) == 0, "no backward training on a constant prediction")
        env.check_rows(seen[0][1], [pred[0]] * len(src), "constant prediction on the source")
        return
    env.cover("backward")
    f, = C.fits("est")
    env.check_rows(f["X"], [X[i] for i in range(n)], "the backward estimator sees every row")
    for i in range(n):
        if i in src:
            env.check(f["d"][i] < 0, "source rows become the target")
            env.check(np.isnan(f["y"][i]) if reg else f["y"][i] == -1, "and their labels are masked")
        else:
            env.check(f["d"][i] >= 0, "target rows become the source")
    enc = {v: k for k, v in enumerate(sorted(set(pred)))}
    env.check_rows(f["y"][np.array(tgt)], pred if reg else [enc[v] for v in pred], "labelled with the predictions")
    for i in range(n):
        for j in range(n):
            if i in src and j in src or i in tgt and j in tgt:
                env.check((f["d"][i] == f["d"][j]) == (d[i] == d[j]), "domains stay distinct")
    env.check_rows(p[1]["X"], [X[i] for i in src], "the backward estimator predicts the source rows")
    env.check_rows(p[1]["d"], [f["d"][i] for i in src], "as target rows")
    if reg:
        want = [0.5 * (1 if bool(X[i, 0] > 0.25) else 0) + 0.125 for i in src]
    else:
        dec = sorted(set(pred))
        want = [dec[1 if bool(X[i, 0] > 0.25) else 0] for i in src]
    env.check_rows(seen[0][1], want, "predictions decoded to the original labels")


def circular_unmasked(env):
    X, y, d, src, tgt = _data(env, masked=0)
    env.raises(lambda: CircularValidation()(CircC(), X, y, sample_domain=d), ValueError, "unmasked labels are rejected")
    env.cover("rejected")


class Lab(Est):
    def predict(self, X, sample_domain=None, allow_source=False):
        C.LOG.append(dict(name="est", what="predict", X=X, d=sample_domain))
        return np.where(X[:, 0] > 0.5, 1, 0)


def mixval(env):
    n = env.p["n"]
    X, y, d, src, tgt = _data(env)
    kind, alpha, up = env.pick("mode", [("both", 0.25, True), ("intra", 0.75, False), ("inter", 0.5, True),
                                        ("both", 0.75, True)])
    rng = NDRng(env)
    perm = {}
    orig = rng.permutation

    def permutation(m):
        perm["p"] = orig(m)
        return perm["p"]
    rng.permutation = permutation
    C.reset()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = MixValScorer(alpha=alpha, ice_type=kind, random_state=rng, greater_is_better=up)(Lab(), X, y, sample_domain=d)
    p = [int(v) for v in perm["p"]]
    env.check(sorted(p) == list(range(len(tgt))), "target rows are mixed with target rows")
    c, = C.calls("est", "predict")
    env.check_rows(c["X"], [X[i] for i in tgt], "labels are the predictions on the target")
    la = [1 if bool(X[i, 0] > 0.5) else 0 for i in tgt]
    parts = {}
    for nm, same in (("intra", True), ("inter", False)):
        idx = [k for k in range(len(tgt)) if (la[k] == la[p[k]]) == same]
        if not idx:
            parts[nm] = np.nan
            continue
        t = 0.0
        for r, k in enumerate(idx):
            x = alpha * X[tgt[k], 0] + (1 - alpha) * X[tgt[p[k]], 0]
            t = t + (r + 1) * x + (r + 2) * 3 * (la[k] if alpha >= 0.5 else la[p[k]])
        parts[nm] = t
    use = [parts[k] for k in (["intra", "inter"] if kind == "both" else [kind])]
    fin = [v for v in use if not (isinstance(v, float) and np.isnan(v))]
    want = sum(fin) / len(fin) if fin else np.nan
    env.check_eq(out, (1 if up else -1) * want, "accuracy on the mixed target rows")
    for s in C.calls("est", "score"):
        env.check(bool(np.all(s["d"] < 0)), "mixed rows are target rows")
    env.cover(kind)


class ProbPipe(Pipe):
    pass


def mano_proba(env):
    X, y, d, src, tgt = _data(env)
    p = env.p["p"]
    C.reset()
    up = bool(env.bool("up"))
    out = MaNoScorer(p=p, greater_is_better=up)(ProbPipe([("feat", Feat()), ("clf", Est())]), X, y, sample_domain=d)
    c, = C.calls("pipe", "proba")
    env.check_rows(c["X"], [X[i] for i in tgt], "evaluated on the target rows")
    v = sum(X[i, 0] ** p + (1.0 - X[i, 0]) ** p for i in tgt) / (2 * len(tgt))
    s = 1 if up else -1
    env.check_le(0.0, s * out, "non negative norm")
    env.check_eq((s * out) ** p, v, "p-norm of the target probabilities", tol=1e-4)
    env.cover("scored")


class Logits:
    def __init__(self, a):
        self.a = a

    def cpu(self):
        return self

    detach = cpu

    def numpy(self):
        return self.a


class Deep(Est):
    class module_:
        layer_name = "fc"

    def infer(self, X, **kw):
        C.LOG.append(dict(name="est", what="infer", X=X))
        self.out = np.stack([X[:, 0] * 4.0, X[:, 0] * 2.0 - 1.0], axis=1)
        return Logits(self.out)


def mano_logits(env):
    X, y, d, src, tgt = _data(env)
    soft = env.p["soft"]
    C.reset()
    est = Deep()
    sc = MaNoScorer(p=2, threshold=-np.inf if soft else np.inf)
    out = sc(est, X, y, sample_domain=d)
    c, = C.calls("est", "infer")
    env.check_rows(c["X"], [X[i] for i in tgt], "evaluated on the target rows")
    tot = 0.0
    for i in tgt:
        l = [X[i, 0] * 4.0, X[i, 0] * 2.0 - 1.0]
        if soft:
            mx = np.maximum(l[0], l[1])
            e = [np.exp(v - mx) for v in l]
        else:
            e = [1.0 + v + v * v / 2 for v in l]
            mn = np.minimum(e[0], e[1])
            e = [v - mn for v in e]
        z = e[0] + e[1]
        env.assume(z > 1e-3)
        tot = tot + (e[0] / z) ** 2 + (e[1] / z) ** 2
    env.check(sc.chosen_normalization == ("softmax" if soft else "taylor"), "normalisation chosen by the criterion")
    env.check_eq(out * out, tot / (2 * len(tgt)), "norm of the normalised logits of the target", tol=1e-4)
    env.cover("scored")


_D = [[1, -1, 1, 2, 1], [-1, 1, 1, 1, 2]]
_s = dict(cover=["scored"], time=100)
INSTANCES = [
    ("supervised", supervised, dict(n=3), dict(_s)),
    ("importance", importance, dict(n=3), dict(_s)),
    ("entropy_mean", entropy, dict(n=3, reduction="mean", logp=True), dict(_s)),
    ("entropy_sum", entropy, dict(n=3, reduction="sum", logp=False), dict(_s)),
    ("entropy_three", entropy, dict(n=2, reduction="none", logp=True, three=True), dict(_s)),
    ("entropy_three_sum", entropy, dict(n=2, reduction="sum", logp=True, three=True), dict(_s)),
    ("entropy_none", entropy, dict(n=3, reduction="none", logp=True), dict(_s)),
    ("density", density, dict(n=3), dict(_s)),
    ("dev_column", dev, dict(n=5, loss="column", D=_D[:1]), dict(_s)),
    ("dev_vector", dev, dict(n=5, loss="vector", D=_D[1:]), dict(_s)),
    ("dev_default", dev, dict(n=5, loss="default", D=_D[:1]), dict(_s)),
    ("circular", circular, dict(n=4, reg=False, doms=[1, -1]), dict(cover=["constant", "backward"], time=100)),
    ("circular_reg", circular, dict(n=3, reg=True, doms=[1, -1, -2]), dict(cover=["constant", "backward"], time=100)),
    ("circular_zero", circular, dict(n=3, reg=False, doms=[0, 1, -1]), dict(cover=["constant", "backward"], time=100)),
    ("circular_unmasked", circular_unmasked, dict(n=3), dict(cover=["rejected"])),
    ("mixval", mixval, dict(n=4, doms=[1, -1]), dict(cover=["both", "intra", "inter"], time=100)),
    ("mano_proba", mano_proba, dict(n=3, p=2), dict(_s, exact_sqrt=True)),
    ("mano_taylor", mano_logits, dict(n=3, soft=False), dict(_s, exact_sqrt=True)),
    ("mano_softmax", mano_logits, dict(n=3, soft=True), dict(_s, exact_sqrt=True)),
]
