"""C07 source-only / target-only / source-target selectors."""
import numpy as np

from harness import common as C
from skada import SelectSource, SelectSourceTarget, SelectTarget, make_da_pipeline

ASSUMPTIONS = ["scikit-learn Pipeline and metadata routing run for real; base estimators are recording stubs"]


def one_side(env):
    n, side = env.p["n"], env.p["side"]
    d = env.ints("d", n, -2, 2)
    src, tgt = C.sign_split(d)
    rows = src if side == "source" else tgt
    env.assume(len(rows) > 0)
    X = env.reals("X", (n, 1))
    y = env.ints("y", n, 0, 2)
    w = env.reals("w", n, 0, 9)
    cls = SelectSource if side == "source" else SelectTarget
    C.reset()
    pipe = make_da_pipeline(cls(C.RecPredictor().set_fit_request(sample_weight=True)))
    snap = env.snapshot(y)
    pipe.fit(X, y, sample_domain=d, sample_weight=w)
    env.cover("fitted")
    env.check_eq(y, snap, "caller's labels untouched")
    r, = C.fits("p")
    env.check_rows(r["X"], [X[i] for i in rows], f"fit on the {side} rows, in order")
    env.check_rows(r["y"], [y[i] for i in rows], "with their labels")
    env.check_rows(r["w"], [w[i] for i in rows], "with their weights")
    p = pipe.predict(X, sample_domain=d, allow_source=True)
    t = C.tag_of([X[i] for i in rows])
    env.check(len(p) == n, "a prediction for every row")
    for i in range(n):
        env.check_eq(p[i], 3.0 * X[i, 0] + t, "every row predicted, in order")


def one_side_transform(env):
    n, side = env.p["n"], env.p["side"]
    d = env.ints("d", n, -2, 2)
    src, tgt = C.sign_split(d)
    rows = src if side == "source" else tgt
    env.assume(len(rows) > 0)
    X = env.reals("X", (n, 1))
    y = env.ints("y", n, 0, 2)
    cls = SelectSource if side == "source" else SelectTarget
    tcls = C.RecFitTransformer if env.p["ft"] else C.RecTransformer
    C.reset()
    pipe = make_da_pipeline(cls(tcls()), cls(C.RecPredictor()))
    pipe.fit(X, y, sample_domain=d)
    env.cover("fitted")
    t = C.tag_of([X[i] for i in rows])
    r, = C.fits("p")
    env.check_rows(r["X"], [X[i] + t for i in rows], "next step sees the transformed kept rows")
    env.check_rows(r["y"], [y[i] for i in rows], "with their labels")
    p = pipe.predict(X, sample_domain=d, allow_source=True)
    t2 = C.tag_of([X[i] + t for i in rows])
    for i in range(n):
        env.check_eq(p[i], 3.0 * (X[i, 0] + t) + t2, "every row predicted, in order")


def both(env):
    n = env.p["n"]
    d = env.ints("d", n, -2, 2)
    src, tgt = C.sign_split(d)
    X = env.reals("X", (n, 1))
    y = env.ints("y", n, 0, 2)
    w = env.reals("w", n, 0, 9)
    C.reset()
    a = C.RecPredictor("s").set_fit_request(sample_weight=True)
    b = C.RecPredictor("t").set_fit_request(sample_weight=True) if env.p["two"] else None
    sel = SelectSourceTarget(a, b)
    pipe = make_da_pipeline(sel)
    if not src or not tgt:
        env.cover("one side missing")
        env.raises(lambda: pipe.fit(X, y, sample_domain=d, sample_weight=w), ValueError,
                   "both sides are required")
        return
    pipe.fit(X, y, sample_domain=d, sample_weight=w)
    env.cover("fitted")
    recs = [r for r in C.LOG if r["what"] == "fit"]
    env.check(len(recs) == 2, "two fits")
    if env.p["two"]:
        env.check_list([r["name"] for r in recs], ["s", "t"], "each estimator fitted once")
    for r, rows in zip(recs, (src, tgt)):
        env.check_rows(r["X"], [X[i] for i in rows], "fit on its own side")
        env.check_rows(r["y"], [y[i] for i in rows], "with its labels")
        env.check_rows(r["w"], [w[i] for i in rows], "with its weights")
    ts, tt = C.tag_of([X[i] for i in src]), C.tag_of([X[i] for i in tgt])
    m = env.pick("m", [1, 2])
    e = env.ints("e", m, -1, 1)
    Z = env.reals("Z", (m, 1))
    p = pipe.predict(Z, sample_domain=e, allow_source=True)
    dec = pipe.decision_function(Z, sample_domain=e, allow_source=True)
    pr = pipe.predict_proba(Z, sample_domain=e, allow_source=True)
    env.check(len(p) == m, "one prediction per row")
    for i in range(m):
        t = ts if e[i] >= 0 else tt
        env.check_eq(p[i], 3.0 * Z[i, 0] + t, "predicted by the estimator of its side")
        env.check_eq(dec[i], 5.0 * Z[i, 0] + t, "decided by the estimator of its side")
        env.check_eq(pr[i, 0], Z[i, 0] + t, "probability from the estimator of its side")


def both_transform(env):
    n = env.p["n"]
    d = env.ints("d", n, -2, 2)
    src, tgt = C.sign_split(d)
    env.assume(len(src) > 0 and len(tgt) > 0)
    X = env.reals("X", (n, 2))
    cls = C.RecFitTransformer if env.p["ft"] else C.RecTransformer
    sel = SelectSourceTarget(cls("s"), cls("t"))
    C.reset()
    out = sel.fit_transform(X, sample_domain=d)
    out = out._features if hasattr(out, "_features") else out
    env.cover("fitted")
    ts, tt = C.tag_of([X[i] for i in src]), C.tag_of([X[i] for i in tgt])
    for i in range(n):
        env.check_eq(out[i], X[i] + (ts if i in src else tt), "row transformed by its side's estimator")
    out = sel.transform(X, sample_domain=d)
    for i in range(n):
        env.check_eq(out[i], X[i] + (ts if i in src else tt), "row transformed by its side's estimator")


def no_mask(env):
    env.cover("reached")
    for cls in (SelectTarget, SelectSourceTarget):
        env.raises(lambda: cls(C.RecPredictor(), mask_target_labels=True), ValueError,
                   "masking target labels makes no sense here")
    env.raises(lambda: SelectSourceTarget(C.RecTransformer(), C.RecPredictor()), TypeError,
               "both must be transformers or neither")


_c = dict(cover=["fitted"])
INSTANCES = [
    ("source_n5", one_side, dict(n=5, side="source"), dict(_c)),
    ("target_n5", one_side, dict(n=5, side="target"), dict(_c)),
    ("both_two", both, dict(n=3, two=True), dict(cover=["fitted", "one side missing"])),
    ("both_one", both, dict(n=3, two=False), dict(cover=["fitted", "one side missing"])),
    ("no_mask", no_mask, {}, dict(cover=["reached"])),
    ("both_n5", both, dict(n=5, two=True), dict(_c, tier="thorough", cost=5)),
] + [(f"tr_{s}_{f}", one_side_transform, dict(n=4, side=s, ft=f), dict(_c))
     for s in ("source", "target") for f in (True, False)] + [
    (f"both_tr_{f}", both_transform, dict(n=4, ft=f), dict(_c)) for f in (True, False)]
