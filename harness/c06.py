"""C06 per-domain estimation: every row is handled by the estimator fitted on
exactly the rows of its own domain, and results come back in row order."""
import numpy as np

from harness import common as C
from skada import PerDomain, make_da_pipeline
from skada.base import BaseAdapter

ASSUMPTIONS = ["scikit-learn Pipeline and metadata routing run for real; base estimators are recording stubs"]


def _groups(d, rows=None):
    ds = [int(v) for v in d]
    rows = range(len(ds)) if rows is None else rows
    g = {}
    for i in rows:
        g.setdefault(ds[i], []).append(i)
    return ds, g


def transform(env):
    n = env.p["n"]
    cls = C.RecFitTransformer if env.p["ft"] else C.RecTransformer
    d = env.ints("d", n, *env.p.get("range", (-2, 1)))
    X = env.reals("X", (n, 2))
    ds, g = _groups(d)
    C.reset()
    if env.p["how"] == "selector":
        sel = PerDomain(cls())
        out = sel.fit_transform(X, sample_domain=d)
        out = out._features if hasattr(out, "_features") else out
        ests = sel.estimators_
    else:
        pipe = make_da_pipeline(PerDomain(cls()))
        out = pipe.fit(X, sample_domain=d).transform(X, sample_domain=d)
        ests = pipe[-1].estimators_
    env.check_list(sorted(int(k) for k in ests), sorted(g), "one estimator per domain")
    tags = {k: C.tag_of([X[i] for i in rows]) for k, rows in g.items()}
    env.check(out.shape == (n, 2), "shape kept")
    for i in range(n):
        env.check_eq(out[i], X[i] + tags[ds[i]], "row transformed by its own domain's estimator")
    # new data, any subset of the known domains, any order
    m = 2
    e = [ds[env.pick(f"e{j}", range(n))] for j in range(m)]
    X2 = env.reals("Z", (m, 2))
    e_arr = env.array(e, np.int64)
    out2 = (sel if env.p["how"] == "selector" else pipe).transform(X2, sample_domain=e_arr)
    for j in range(m):
        env.check_eq(out2[j], X2[j] + tags[e[j]], "new row transformed by its own domain's estimator")
    if len(g) > 1:
        env.cover("several domains")


def predict(env):
    n = env.p["n"]
    d = env.ints("d", n, *env.p.get("range", (-2, 1)))
    X = env.reals("X", (n, 1))
    y = env.ints("y", n, 0, 2)
    w = env.reals("w", n, 0, 9)
    ds, g = _groups(d)
    C.reset()
    sel = PerDomain(C.RecPredictor().set_fit_request(sample_weight=True), mask_target_labels=False)
    make_da_pipeline(sel).fit(X, y, sample_domain=d, sample_weight=w)
    recs = C.fits("p")
    env.check(len(recs) == len(g), "one fit per domain")
    for k, r in zip(sorted(g), recs):
        env.check_rows(r["X"], [X[i] for i in g[k]], "rows of the domain")
        env.check_rows(r["y"], [y[i] for i in g[k]], "labels of the domain")
        env.check_rows(r["w"], [w[i] for i in g[k]], "weights of the domain")
    tags = {k: C.tag_of([X[i] for i in rows]) for k, rows in g.items()}
    p = sel.predict(X, sample_domain=d)
    dec = sel.decision_function(X, sample_domain=d)
    pr = sel.predict_proba(X, sample_domain=d)
    for i in range(n):
        t = tags[ds[i]]
        env.check_eq(p[i], 3.0 * X[i, 0] + t, "prediction of the row's own domain")
        env.check_eq(dec[i], 5.0 * X[i, 0] + t, "decision of the row's own domain")
        env.check_eq(pr[i, 0], X[i, 0] + t, "probability of the row's own domain")
    if len(g) > 1:
        env.cover("several domains")
    other = env.int("other", -4, 3)
    if all(bool(other != k) for k in g):
        env.cover("unknown domain")
        bad = env.array([int(other)], np.int64)
        env.raises(lambda: sel.predict(X[:1], sample_domain=bad), ValueError, "unknown domain rejected")


def routed(env):
    """per-row parameters at prediction and scoring follow their rows into each domain"""
    n = env.p["n"]
    d = env.ints("d", n, *env.p.get("range", (-2, 1)))
    X = env.reals("X", (n, 1))
    y = env.ints("y", n, 0, 2)
    w = env.reals("w", n, 0, 9)
    ds, g = _groups(d)
    env.cover("several domains" if len(g) > 1 else "one domain")
    C.reset()
    est = C.RecPredictor().set_fit_request(sample_weight=True).set_predict_request(sample_weight=True)
    sel = PerDomain(est.set_score_request(sample_weight=True), mask_target_labels=False)
    sel.fit(X, y, sample_domain=d, sample_weight=w)
    C.reset()
    p = sel.predict(X, sample_domain=d, sample_weight=w)
    recs = C.calls("p", "predict")
    env.check(len(recs) == len(g), "one call per domain")
    for k, r in zip(sorted(g), recs):
        env.check_rows(r["X"], [X[i] for i in g[k]], "rows of the domain")
        env.check(r["w"] is not None and len(r["w"]) == len(g[k]), "parameters of the domain's rows")
        env.check_rows(r["w"], [w[i] for i in g[k]], "parameters of the domain's rows")
    for i in range(n):
        env.check_eq(p[i], 3.0 * X[i, 0] + C.tag_of([X[q] for q in g[ds[i]]]), "prediction of the row's own domain")


class Emit(BaseAdapter):
    """adapter stub: changes the features, labels and emits a weight, all from what it sees in one call"""

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        self.fitted_ = True
        t = C.tag(X)
        return X + t, y + 1, dict(sample_weight=X[:, 0] * 11.0 + t)


def containers(env):
    """features, labels and weights produced per domain come back in row order"""
    n = env.p["n"]
    d = env.ints("d", n, *env.p.get("range", (-2, 1)))
    X = env.reals("X", (n, 1))
    y = env.ints("y", n, 0, 2)
    ds, g = _groups(d)
    env.cover("several domains" if len(g) > 1 else "one domain")
    C.reset()
    pipe = make_da_pipeline(PerDomain(Emit(), mask_target_labels=False),
                            C.RecPredictor().set_fit_request(sample_weight=True), mask_target_labels=False)
    pipe.fit(X, y, sample_domain=d)
    r, = C.fits("p")
    t = {k: C.tag_of([X[i] for i in rows]) for k, rows in g.items()}
    env.check_rows(r["X"], [X[i] + t[ds[i]] for i in range(n)], "features in row order")
    env.check_rows(r["y"], [y[i] + 1 for i in range(n)], "labels in row order")
    env.check_rows(r["w"], [11.0 * X[i, 0] + t[ds[i]] for i in range(n)], "weights in row order")


def masked(env):
    """default masking: masked rows are dropped together with their domain label"""
    n = env.p["n"]
    d = env.ints("d", n, -2, 1)
    src, tgt = C.sign_split(d)
    env.assume(len(src) > 0)
    X = env.reals("X", (n, 1))
    y = env.ints("y", n, 0, 2)
    ds, g = _groups(d, src)
    C.reset()
    pipe = make_da_pipeline(PerDomain(C.RecPredictor()))
    pipe.fit(X, y, sample_domain=d)
    recs = C.fits("p")
    if tgt:
        env.cover("masked rows")
    env.check(len(recs) == len(g), "one fit per labelled domain")
    for k, r in zip(sorted(g), recs):
        env.check_rows(r["X"], [X[i] for i in g[k]], "labelled rows of the domain")
        env.check_rows(r["y"], [y[i] for i in g[k]], "labels of the domain")
    tags = {k: C.tag_of([X[i] for i in rows]) for k, rows in g.items()}
    sub = env.array([ds[i] for i in src], np.int64)
    p = pipe.predict(X[np.array(src)], sample_domain=sub)
    for j, i in enumerate(src):
        env.check_eq(p[j], 3.0 * X[i, 0] + tags[ds[i]], "prediction of the row's own domain")


def dtype_mix(env):
    """outputs of different dtypes per domain are merged without loss"""
    from skada._utils import _merge_domain_outputs
    n = 3
    k = env.pick("k", [1, 2])
    idx = env.perm("perm", n)
    a_idx, b_idx = sorted(idx[:k]), sorted(idx[k:])
    A = env.ints("A", len(a_idx), -5, 5) if env.p["a"] == "int" else env.reals("A", len(a_idx))
    B = env.ints("B", len(b_idx), -5, 5) if env.p["b"] == "int" else env.reals("B", len(b_idx))
    out = _merge_domain_outputs(n, {1: (np.array(a_idx), A), 2: (np.array(b_idx), B)})
    env.cover("merged")
    for j, i in enumerate(a_idx):
        env.check_eq(out[i], A[j], "value of domain 1 at its row")
    for j, i in enumerate(b_idx):
        env.check_eq(out[i], B[j], "value of domain 2 at its row")


_c = dict(cover=["several domains"])
INSTANCES = [
    ("transform_ft_sel", transform, dict(n=3, ft=True, how="selector"), dict(_c, cost=3)),
    ("transform_nft_sel", transform, dict(n=3, ft=False, how="selector", range=(-1, 1)), dict(_c, cost=3)),
    ("transform_ft_pipe", transform, dict(n=3, ft=True, how="pipe", range=(-1, 1)), dict(_c, cost=3)),
    ("transform_nft_pipe", transform, dict(n=3, ft=False, how="pipe", range=(-1, 1)), dict(_c, cost=3)),
    ("predict_n3", predict, dict(n=3), dict(cover=["several domains", "unknown domain"], cost=4)),
    ("routed_n3", routed, dict(n=3), dict(_c, cost=3)),
    ("containers_n3", containers, dict(n=3), dict(_c, cost=3)),
    ("masked_n4", masked, dict(n=4), dict(cover=["masked rows"], cost=3)),
    ("dtype_rr", dtype_mix, dict(a="real", b="real"), dict(cover=["merged"])),
    ("dtype_ir", dtype_mix, dict(a="int", b="real"), dict(cover=["merged"])),
    ("dtype_ri", dtype_mix, dict(a="real", b="int"), dict(cover=["merged"])),
    ("predict_n4", predict, dict(n=4, range=(-2, 2)), dict(_c, tier="thorough", cost=9)),
    ("transform_n4", transform, dict(n=4, ft=True, how="selector"), dict(_c, tier="thorough", cost=9)),
]
