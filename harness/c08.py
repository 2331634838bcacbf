"""C08 pipeline assembly: steps run in the given order, on the previous step's
output, and parameters reach exactly the steps that ask for them."""
import numpy as np

from harness import common as C
from skada import PerDomain, SelectSource, Shared, make_da_pipeline
from skada.base import BaseAdapter, BaseSelector, IncompatibleMetadataError

ASSUMPTIONS = ["scikit-learn Pipeline and metadata routing run for real; base estimators are recording stubs"]


class Scale(C.RecFitTransformer):
    """x -> k * x + t(fit data)"""

    def __init__(self, name="t", k=2.0):
        super().__init__(name)
        self.k = k

    def fit(self, X, y=None, sample_weight=None):
        C.LOG.append(dict(name=self.name, what="fit", X=X, y=y, w=sample_weight))
        self.t_ = C.tag(X)
        return self

    def fit_transform(self, X, y=None, sample_weight=None):
        return self.fit(X, y, sample_weight).transform(X)

    def transform(self, X):
        return self.k * X + self.t_


def compose(env):
    """any mix of plain, wrapped, named and nested steps is a left-to-right composition"""
    n, nst = env.p["n"], env.p["steps"]
    d = env.ints("d", n, -1, 1)
    src, tgt = C.sign_split(d)
    env.assume(len(src) > 0)
    X = env.reals("X", (n, 1))
    y = env.ints("y", n, 0, 2)
    steps, flat, names, used = [], [], [], set()
    for s in range(nst):
        kind = env.pick(f"kind{s}", ["plain", "shared", "named", "nested", "nested2"])
        ests = [Scale(f"s{s}", 2.0 + s)] + ([Scale(f"s{s}b", 5.0)] if kind == "nested2" else [])
        flat += ests
        if kind == "plain":
            steps.append(ests[0])
        elif kind == "shared":
            steps.append(Shared(ests[0]))
        elif kind == "named":
            steps.append((f"my{s}", ests[0]))
            names.append((len(flat) - 1, f"my{s}"))
        else:
            if kind == "nested2":
                env.cover("nested pipeline of two steps")
            steps.append(make_da_pipeline(*ests))
    last = C.RecPredictor()
    fin = env.pick("final", ["plain", "shared", "source", "nested"])
    steps.append({"plain": last, "shared": Shared(last), "source": SelectSource(last)}.get(fin) or
                 make_da_pipeline(last))
    pipe = make_da_pipeline(*steps)
    env.check_list([s.base_estimator.name for _, s in pipe.steps], [e.name for e in flat] + ["p"],
                   "steps in the given order, nested pipelines flattened in place")
    env.check(all(isinstance(s, BaseSelector) for _, s in pipe.steps), "every step is wrapped in a selector")
    nm = [k for k, _ in pipe.steps]
    env.check(len(set(nm)) == len(nm), "step names are unique")
    for i, want in names:
        env.check(nm[i] == want, "user names are kept")
    C.reset()
    pipe.fit(X, y, sample_domain=d)
    cur, tags = X, []
    for e in flat:
        t = C.tag(cur)
        tags.append((e.k, t))
        cur = e.k * cur + t
    r, = C.fits("p")
    env.check_list([q["name"] for q in C.LOG if q["what"] == "fit"], [e.name for e in flat] + ["p"], "fitted once, in order")
    env.check_rows(r["X"], [cur[i] for i in src], "the last step is fitted on the composed output (source rows)")
    env.check_rows(r["y"], [y[i] for i in src], "with their labels")
    t = C.tag_of([cur[i] for i in src])
    Z = env.reals("Z", (2, 1))
    e = env.ints("e", 2, -1, 1)
    p = pipe.predict(Z, sample_domain=e, allow_source=True)
    for k, tg in tags:
        Z = k * Z + tg
    for i in range(2):
        env.check_eq(p[i], 3.0 * Z[i, 0] + t, "prediction is the composition of the steps")
    env.cover("fitted")


class Emit(BaseAdapter):
    """adapter stub: emits one weight per row (and optionally new labels)"""

    def __init__(self, labels=False):
        self.labels = labels

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        self.fitted_ = True
        w = X[:, 0] * 11.0
        if self.labels:
            return 2.0 * X, np.where(sample_domain >= 0, -1, 5), dict(sample_weight=w)
        return 2.0 * X, dict(sample_weight=w)


def weights(env):
    """weights emitted by an adapter, or given by the user"""
    n = env.p["n"]
    d = env.ints("d", n, -1, 1)
    src, tgt = C.sign_split(d)
    env.assume(len(src) > 0)
    X = env.reals("X", (n, 1))
    y = env.ints("y", n, 0, 2)
    est = C.RecPredictor()
    req = env.pick("request", [True, False, None])
    if req is not None:
        est.set_fit_request(sample_weight=req)
    mid = env.pick("middle", ["none", "plain"] if env.p["user"] else ["none", "plain", "asks"])
    tr = [] if mid == "none" else [C.RecTransformer()]
    if mid == "asks":
        tr[0].set_fit_request(sample_weight=True)
    user = env.p["user"]
    ad = [] if user else [Emit()]
    w = env.reals("w", n, 0, 9)
    if not user:
        w = 11.0 * X[:, 0]
    pipe = make_da_pipeline(*ad, *tr, est)
    C.reset()
    kw = dict(sample_weight=w) if user else {}
    if req is None:
        env.cover("not requested")
        exc = Exception if user else IncompatibleMetadataError
        env.raises(lambda: pipe.fit(X, y, sample_domain=d, **kw), exc,
                   "a weight nobody decided about is an error, not silently dropped")
        return
    if user and req is False and mid != "asks":
        # scikit-learn itself rejects a parameter no step of the pipeline asks for
        return
    pipe.fit(X, y, sample_domain=d, **kw)
    r, = C.fits("p")
    if req:
        env.cover("weights delivered")
        env.check(r["w"] is not None, "weights delivered")
        env.check_rows(r["w"], [w[i] for i in src], "weights aligned with the rows")
    else:
        env.check(r["w"] is None, "weights not delivered when declined")
    if mid != "none":
        q, = C.fits("t")
        if mid == "asks":
            env.check(q["w"] is not None, "intermediate step gets the weights it asked for")
            env.check_rows(q["w"], [w[i] for i in range(n)], "aligned")
        else:
            env.check(q["w"] is None, "intermediate step does not get weights it did not ask for")
    base = X if user else 2.0 * X
    if mid != "none":
        base = base + C.tag(base)
    env.check_rows(r["X"], [base[i] for i in src], "rows fitted")


def labels(env):
    """labels emitted by an adapter replace the given ones downstream"""
    n = env.p["n"]
    d = env.ints("d", n, -1, 1)
    src, tgt = C.sign_split(d)
    env.assume(len(tgt) > 0 and len(src) > 0)
    X = env.reals("X", (n, 1))
    y = env.ints("y", n, 0, 2)
    ad = Emit(labels=True)
    ad.predicts_target_labels = True
    C.reset()
    make_da_pipeline(ad, C.RecPredictor().set_fit_request(sample_weight=True)).fit(X, y, sample_domain=d)
    r, = C.fits("p")
    env.cover("fitted")
    env.check_rows(r["X"], [2.0 * X[i] for i in tgt], "fitted on the rows the adapter labelled")
    env.check_rows(r["y"], [5 for i in tgt], "with the adapter's labels")
    env.check_rows(r["w"], [11.0 * X[i, 0] for i in tgt], "with the adapter's weights")


class Replace(BaseAdapter):
    """adapter stub: drops the last row and produces its own per-row parameters"""

    def __init__(self, name="r", k=3.0):
        self.name = name
        self.k = k

    def fit_transform(self, X, y=None, *, sample_domain=None, sample_weight=None, **params):
        self.fitted_ = True
        C.LOG.append(dict(name=self.name, what="fit", X=X, y=y, d=sample_domain))
        m = X.shape[0] - 1
        return X[:m], y[:m], dict(sample_domain=sample_domain[:m] * 2, sample_weight=X[:m, 0] * self.k)


def replaced(env):
    """what a step produces replaces what the caller or an earlier step gave, for the later steps"""
    n = env.p["n"]
    d = env.ints("d", n, 1, 2)
    X = env.reals("X", (n, 1))
    y = env.ints("y", n, 0, 2)
    k = env.pick("k", [1, 2])
    C.reset()
    pred = C.RecDomainPredictor().set_fit_request(sample_weight=True, sample_domain=True)
    make_da_pipeline(*[Replace(f"r{i}", 3.0 + i) for i in range(k)], pred).fit(X, y, sample_domain=d)
    r, = C.fits("p")
    env.cover("fitted")
    if k == 2:
        q, = C.fits("r1")
        env.check_rows(q["d"], [2 * d[i] for i in range(n - 1)], "the next step gets the domain labels produced")
    m = n - k
    env.check_rows(r["X"], [X[i] for i in range(m)], "rows produced")
    env.check_rows(r["y"], [y[i] for i in range(m)], "labels produced")
    env.check_rows(r["d"], [d[i] * 2 ** k for i in range(m)], "domain labels produced")
    env.check_rows(r["w"], [X[i, 0] * (2.0 + k) for i in range(m)], "weights produced by the last step")


def at_predict(env):
    """parameters of predict and score reach the last step exactly when it asks for them"""
    n = env.p["n"]
    d = env.ints("d", n, -1, 1)
    src, tgt = C.sign_split(d)
    env.assume(len(src) > 0)
    X = env.reals("X", (n, 1))
    y = env.ints("y", n, 0, 2)
    w = env.reals("w", n, 0, 9)
    est = C.RecPredictor()
    ask = env.pick("ask", [True, False])
    if ask:
        est.set_predict_request(sample_weight=True).set_score_request(sample_weight=True)
    est = {"plain": est, "source": SelectSource(est)}[env.pick("wrap", ["plain", "source"])]
    pipe = make_da_pipeline(C.RecTransformer(), est).fit(X, y, sample_domain=d)
    cur = X + C.tag(X)
    C.reset()
    kw = dict(sample_weight=w) if ask else {}
    p = pipe.predict(X, sample_domain=d, allow_source=True, **kw)
    s = pipe.score(X, y, sample_domain=d, allow_source=True, **kw)
    env.cover("fitted")
    t = C.tag_of([cur[i] for i in src])
    for i in range(n):
        env.check_eq(p[i], 3.0 * cur[i, 0] + t, "prediction")
    env.check_eq(s, t, "score of the last step")
    a, = C.calls("p", "predict")
    b, = C.calls("p", "score")
    for r in (a, b):
        env.check_rows(r["X"], [cur[i] for i in range(n)], "every row, in order")
        env.check((r["w"] is not None) == ask, "weights reach the step exactly when it asks")
        if ask and r["w"] is not None:
            env.check_rows(r["w"], [w[i] for i in range(n)], "weights aligned with the rows")
    env.check_rows(b["y"], [y[i] for i in range(n)], "labels scored")


def selector_names(env):
    kind = env.pick("kind", ["shared", "per_domain", "callable", "bad name", "bad type", "bad callable"])
    env.cover(kind)
    mask = env.pick("mask", [True, False])
    est = C.RecPredictor()
    wrapped = SelectSource(C.RecTransformer())
    sel = {"callable": lambda e, mask_target_labels: SelectSource(e, mask_target_labels=mask_target_labels),
           "bad type": 3, "bad callable": lambda e, mask_target_labels: e, "bad name": "nope"}.get(kind, kind)
    if kind.startswith("bad"):
        env.raises(lambda: make_da_pipeline(wrapped, est, default_selector=sel), ValueError,
                   "a default selector that is not one is rejected")
        return
    pipe = make_da_pipeline(wrapped, est, default_selector=sel, mask_target_labels=mask)
    cls = dict(shared=Shared, per_domain=PerDomain, callable=SelectSource)[kind]
    env.check(type(pipe[1]) is cls, "default selector applied to bare estimators")
    env.check(pipe[1].mask_target_labels is mask, "masking flag handed to the selector")
    env.check(pipe[0] is wrapped, "an already wrapped step is left alone")
    env.check(pipe[1].base_estimator is est, "the estimator itself is wrapped")


def same_names(env):
    """several nested pipelines with steps of the same class"""
    n = 2
    X = env.reals("X", (n, 1))
    y = env.ints("y", n, 0, 2)
    k = env.pick("k", [2, 3])
    named = env.p["named"]
    parts = [make_da_pipeline(Scale(f"s{i}")) for i in range(k)]
    if named:
        parts = [(f"n{i}", p) for i, p in enumerate(parts)]
    pipe = make_da_pipeline(*parts, C.RecPredictor())
    nm = [a for a, _ in pipe.steps]
    env.check(len(set(nm)) == len(nm), "step names are unique")
    C.reset()
    pipe.fit(X, y, sample_domain=np.array([1, -1]))
    env.cover("fitted")
    env.check_list([q["name"] for q in C.LOG], [f"s{i}" for i in range(k)] + ["p"], "fitted once, in order")


_c = dict(cover=["fitted"])
INSTANCES = [
    ("compose_2", compose, dict(n=2, steps=2), dict(cover=["fitted", "nested pipeline of two steps"], cost=3)),
    ("compose_1", compose, dict(n=3, steps=1), dict(_c, cost=2)),
    ("weights_adapter", weights, dict(n=3, user=False), dict(cover=["not requested", "weights delivered"])),
    ("weights_user", weights, dict(n=3, user=True), dict(cover=["not requested", "weights delivered"])),
    ("replaced", replaced, dict(n=4), dict(_c)),
    ("at_predict", at_predict, dict(n=3), dict(_c)),
    ("labels", labels, dict(n=4), dict(_c)),
    ("selectors", selector_names, {}, dict(cover=["shared", "per_domain", "callable", "bad name", "bad type", "bad callable"])),
    ("same_names", same_names, dict(named=False), dict(_c)),
    ("nested_named", same_names, dict(named=True), dict(_c)),
    ("compose_3", compose, dict(n=2, steps=3), dict(_c, tier="thorough", cost=9)),
]
