"""C05 target labels never reach what a pipeline learns."""
import numpy as np
from sklearn.base import BaseEstimator

from harness import common as C
from skada import PerDomain, SelectSource, Shared, make_da_pipeline
from skada.base import BaseAdapter

ASSUMPTIONS = ["scikit-learn Pipeline and metadata routing run for real; base estimators are recording stubs"]


class WeightAdapter(BaseAdapter):
    """adapter stub: rescales features and emits one weight per row"""

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        C.LOG.append(dict(name="a", what="fit", X=X, y=y, d=sample_domain))
        self.fitted_ = True
        return 2.0 * X, dict(sample_weight=X[:, 0] * 11.0)


def _labels(env, name, n, kind):
    if kind != "int":
        return env.reals(name, n, -50, 50)
    y = env.ints(name, n, -2, 1)
    for v in y:
        env.assume(v != -1)
    return y


def _is_mask(env, v, kind):
    return v == -1 if kind == "int" else np.isnan(v)


def _pipe(kind):
    if kind == "plain":
        return make_da_pipeline(C.RecPredictor())
    if kind == "tp":
        return make_da_pipeline(C.RecTransformer(), C.RecPredictor())
    if kind == "ftp":
        return make_da_pipeline(C.RecFitTransformer(), C.RecPredictor())
    if kind == "weights":
        return make_da_pipeline(WeightAdapter(), C.RecPredictor().set_fit_request(sample_weight=True)
                                .set_score_request(sample_weight=True))
    if kind == "domain":
        return make_da_pipeline(C.RecFitTransformer(), C.RecDomainPredictor().set_fit_request(sample_domain=True))
    if kind == "select":
        return make_da_pipeline(SelectSource(C.RecPredictor()))
    if kind == "shared":
        return make_da_pipeline(Shared(C.RecFitTransformer()), Shared(C.RecPredictor()))
    if kind == "selecttp":
        return make_da_pipeline(SelectSource(C.RecFitTransformer()), C.RecPredictor())
    raise AssertionError(kind)


def leak(env):
    n, kind, yk = env.p["n"], env.p["pipe"], env.p["y"]
    d = env.ints("d", n, -2, 2)
    src, tgt = C.sign_split(d)
    env.assume(len(src) > 0 and len(tgt) > 0)
    X = env.reals("X", (n, 1))
    y1 = _labels(env, "y", n, yk)
    y2 = y1.copy()
    other = _labels(env, "z", n, yk)
    for i in tgt:
        y2[i] = other[i]
    if yk == "real":
        env.assume(y1[src[0]] * 2 != np.rint(y1[src[0]] * 2))
    logs = []
    for y in (y1, y2):
        C.reset()
        snap = [env.snapshot(a) for a in (X, y, d)]
        pipe = _pipe(kind)
        pipe.fit(X, y, sample_domain=d)
        for a, s, nm in zip((X, y, d), snap, ("features", "labels", "domain labels")):
            env.check_eq(a, s, f"the caller's {nm} are left untouched by fit")
        logs.append([dict(r) for r in C.LOG])
        pred = pipe.predict(X, sample_domain=d, allow_source=True)
        env.check(len(pred) == n, "one prediction per row")
    env.cover("fitted")
    A, B = logs
    env.check(len(A) == len(B), "same calls whatever the target labels")
    for a, b in zip(A, B):
        for k in ("X", "y", "w", "d"):
            va, vb = a.get(k), b.get(k)
            env.check((va is None) == (vb is None), "same arguments whatever the target labels")
            if va is not None and vb is not None:
                env.check_eq(va, vb, f"{a['name']}.{a['what']}({k}) is independent of target labels")
    # the predictor learns from the labelled source rows only, rows in order
    fp = [r for r in A if r["name"] == "p" and r["what"] == "fit"]
    env.check(len(fp) == 1, "predictor fitted once")
    rec = fp[0]
    if kind == "domain":
        env.check(rec["X"].shape[0] == n, "all rows when the estimator asks for domains")
        for i in range(n):
            if i in tgt:
                env.check(_is_mask(env, rec["y"][i], yk), "target label masked")
            else:
                env.check_eq(rec["y"][i], y1[i], "source label kept")
        env.check_eq(rec["d"], d, "domain labels aligned")
    else:
        base = {"plain": X, "weights": 2.0 * X, "select": X}.get(kind)
        if base is None:
            fitrows = [X[i] for i in (src if kind == "selecttp" else range(n))]
            base = X + C.tag_of(fitrows)
        env.check_rows(rec["X"], [base[i] for i in src], "predictor sees exactly the source rows, in order")
        env.check_rows(rec["y"], [y1[i] for i in src], "with their own labels")
        if kind == "weights":
            env.check_rows(rec["w"], [11.0 * X[i, 0] for i in src], "and their own weights")
    for r in A:
        if r["name"] in ("t", "a") and r["what"].startswith("fit") and r["y"] is not None:
            m = r["y"].shape[0]
            if m == n:
                for i in tgt:
                    env.check(_is_mask(env, r["y"][i], yk), "intermediate steps see masked target labels")
                for i in src:
                    env.check_eq(r["y"][i], y1[i], "intermediate steps see source labels")
            else:
                env.check_rows(r["y"], [y1[i] for i in src], "source labels only")


def unmasked(env):
    """mask_target_labels=False hands the given labels over, minus masked rows"""
    n = env.p["n"]
    d = env.ints("d", n, -2, 2)
    X = env.reals("X", (n, 1))
    y = env.ints("y", n, -2, 1)
    keep = [i for i in range(n) if y[i] != -1]
    env.assume(len(keep) > 0)
    snap = env.snapshot(y)
    C.reset()
    make_da_pipeline(C.RecPredictor(), mask_target_labels=False).fit(X, y, sample_domain=d)
    rec = C.fits("p")[0]
    env.cover("fitted")
    env.check_rows(rec["X"], [X[i] for i in keep], "rows with a label")
    env.check_rows(rec["y"], [y[i] for i in keep], "their labels")
    env.check_eq(y, snap, "caller's labels untouched")


_c = dict(cover=["fitted"])
INSTANCES = [(f"leak_{p}_{y}", leak, dict(n=3 if p != "plain" else 4, pipe=p, y=y), dict(_c))
             for p in ("plain", "tp", "ftp", "weights", "domain", "select", "shared", "selecttp")
             for y in ("int", "real")] + [
    ("unmasked", unmasked, dict(n=4), dict(_c)),
] + [(f"leak5_{p}_{y}", leak, dict(n=5, pipe=p, y=y), dict(_c, tier="thorough", cost=5))
     for p in ("ftp", "weights", "domain", "select") for y in ("int", "real")]
