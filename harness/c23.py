"""C23 label propagation gives every target row the label the transport plan brings to it."""
import numpy as np
import ot

from harness import common as C
from skada import JCPOTLabelProp, JCPOTLabelPropAdapter, OTLabelProp, OTLabelPropAdapter

ASSUMPTIONS = ["the optimal transport solver is a stub returning an arbitrary non-negative plan (for JCPOT arbitrary "
               "class scores per target row); ground distances are squared Euclidean"]


class Res:
    def __init__(self, plan):
        self.plan, self.value = plan, 0.0


class Ot:
    def __init__(self, env):
        self.calls, self.dists = [], []

        def dist(x1, x2=None, metric="sqeuclidean", **k):
            M = np.stack([np.stack([np.sum((a - b) ** 2) for b in x2]) for a in x1])
            self.dists.append((x1, x2, metric, M))
            return M

        def solve(M, a=None, b=None, reg=None, **k):
            G = env.reals(f"G{len(self.calls)}", M.shape, 0, 1)
            self.calls.append(dict(M=M, a=a, b=b, reg=reg, **k))
            self.G = G
            return Res(G)
        env.patch(ot, "dist", dist)
        env.patch(ot, "solve", solve)


def _problem(env, disc=True):
    n = env.p["n"]
    d = env.array(env.pick("d", env.p["d"]), np.int64)
    src, tgt = C.sign_split(d)
    x = env.reals("x", n, -3, 3)
    X = np.stack([x, np.arange(n) * 1.0], axis=1)
    if disc:
        y = env.ints("y", n, *env.p.get("y", (1, 3)))
    else:
        y = env.reals("y", n, -3, 3)
        y = np.stack([y[i] if i in src else y[i] * 0 + float("nan") for i in range(n)])
        if env.symbolic:
            # a continuous label: some value is not an integer
            env.assume(y[src[0]] == 0.5)
        else:
            env.assume(y[src[0]] == 0.5)
    return X, y, d, src, tgt


def _argmax(scores, labels, want):
    """want is one of the labels with the largest score"""
    r = False
    for s, c in zip(scores, labels):
        best = True
        for t in scores:
            best = best & (s >= t) if not isinstance(best, bool) else ((s >= t) if best else False)
        r = (best & (want == c)) | r
    return r


def otlp(env):
    disc, wgt = env.p.get("disc", True), env.p["w"]
    X, y, d, src, tgt = _problem(env, disc)
    n = len(d)
    o = Ot(env)
    w = env.reals("w", n, 0.5, 3) if wgt else None
    ad = OTLabelPropAdapter(metric="sqeuclidean", reg=env.p.get("reg"), n_iter_max=17)
    X0, y0, w0 = env.snapshot(X), env.snapshot(y), env.snapshot(w)
    Xo, yo, par = ad.fit_transform(X, y, d, sample_weight=w)
    env.cover("done")
    env.check_eq(Xo, X0, "features pass through")
    env.check_eq(y, y0, "the caller's labels are untouched")
    c, = o.calls
    env.check(len(o.dists) == 1 and o.dists[0][2] == "sqeuclidean", "one ground cost with the metric asked")
    env.check(c["reg"] == env.p.get("reg") and c.get("max_iter") == 17, "parameters reach the solver")
    for a, i in enumerate(src):
        for b, j in enumerate(tgt):
            env.check_eq(c["M"][a, b], np.sum((X[i] - X[j]) ** 2), "ground cost of source and target rows")
    for side, got in ((src, c["a"]), (tgt, c["b"])):
        tot = sum(w[i] for i in side) if wgt else len(side)
        env.check_rows(got, [(w[i] if wgt else 1.0) / tot for i in side], "marginals are the normalised weights")
    env.check(len(yo) == n, "one label per row")
    G = o.G
    classes = sorted({int(y[i]) for i in src}) if disc else None
    for b, j in enumerate(tgt):
        if disc:
            sc = [sum((G[a, b] if int(y[i]) == k else 0.0) for a, i in enumerate(src)) for k in classes]
            env.check(_argmax(sc, classes, yo[j]), "a target row gets the class that brings it the most mass")
        else:
            tot = sum(w[i] for i in tgt) if wgt else len(tgt)
            b_j = (w[j] if wgt else 1.0) / tot
            env.check_eq(yo[j] * b_j, sum(G[a, b] * y[i] for a, i in enumerate(src)), "barycentric label")
    for i in src:
        env.check_eq(yo[i], -1 if disc else float("nan"), "source labels are masked, so that training is on the target")
    if wgt:
        env.check(set(par) == {"sample_weight"}, "weights go through")
        env.check_eq(par["sample_weight"], w0, "weights go through")
    else:
        env.check(par == {}, "no weights out of nothing")


class JC:
    def __init__(self, env):
        me = self
        self.made = []

        class T:
            def __init__(self, **kw):
                self.kw = kw
                me.made.append(self)

            def fit(self, Xs=None, ys=None, Xt=None, yt=None):
                self.Xs, self.ys, self.Xt, self.yt = Xs, ys, Xt, yt
                return self

            def transform_labels(self, ys=None):
                self.ys2 = ys
                K = len({int(v) for q in ys for v in q})
                self.S = env.reals("S", (len(self.Xt), K), 0, 1)
                return self.S
        env.patch(ot.da, "JCPOTTransport", T)


def jcpot(env):
    X, y, d, src, tgt = _problem(env)
    n = len(d)
    doms = sorted({int(v) for v in d if v >= 0})
    lab = sorted({int(y[i]) for i in src})
    for k in doms:
        # every source has every class, as the method supposes
        env.assume(all(any(int(y[i]) == c for i in src if int(d[i]) == k) for c in lab))
    t = JC(env)
    ad = JCPOTLabelPropAdapter(metric="euclidean", reg=0.25, max_iter=13, tol=1e-3)
    X0, y0 = env.snapshot(X), env.snapshot(y)
    Xo, yo, par = ad.fit_transform(X, y, d)
    env.cover("done")
    env.check_eq(Xo, X0, "features pass through")
    env.check_eq(y, y0, "the caller's labels are untouched")
    m, = t.made
    env.check({k: m.kw[k] for k in ("reg_e", "metric", "max_iter", "tol")} ==
              dict(reg_e=0.25, metric="euclidean", max_iter=13, tol=1e-3), "parameters reach the solver")
    env.check(len(m.Xs) == len(m.ys) == max(2, len(doms)), "one sample set per source domain (twice the only one)")
    got = []
    for Xk, yk in zip(m.Xs, m.ys):
        ids = [int(v) for v in Xk[:, 1]]
        dd = {int(d[i]) for i in ids}
        env.check(len(dd) == 1 and sorted(ids) == [i for i in src if {int(d[i])} == dd], "the rows of one source domain")
        got += list(dd)
        env.check_rows(Xk[:, 0], [X[i, 0] for i in ids], "rows unchanged")
        env.check(len(yk) == len(ids), "labels aligned")
        for q, i in enumerate(ids):
            env.check(int(yk[q]) == lab.index(int(y[i])), "labels numbered from zero, aligned with the rows")
    env.check(sorted(got) == (doms if len(doms) > 1 else doms * 2), "every source domain takes part")
    env.check(len(m.ys2) == len(m.ys) and all(env_eq(a, b) for a, b in zip(m.ys2, m.ys)), "labels of the same sources are propagated")
    ids = [int(v) for v in m.Xt[:, 1]]
    env.check(sorted(ids) == tgt, "all target rows take part")
    for r, j in enumerate(ids):
        env.check_eq(m.Xt[r], X[j], "target rows unchanged")
        env.check(_argmax([m.S[r, c] for c in range(len(lab))], lab, yo[j]), "a target row gets its own best class")
    for i in src:
        env.check_eq(yo[i], -1, "source labels are masked")
    env.check(par == {} and len(yo) == n, "nothing else comes out")


def env_eq(a, b):
    return [int(v) for v in a] == [int(v) for v in b]


def pipeline(env):
    """the estimator behind the adapter is trained on the target rows with the propagated labels"""
    C.reset()
    X, y, d, src, tgt = _problem(env)
    if env.p["jc"]:
        t = JC(env)
        pipe = JCPOTLabelProp(C.RecPredictor("last"), reg=0.25, metric="euclidean", max_iter=13, tol=1e-3)
    else:
        o = Ot(env)
        pipe = OTLabelProp(C.RecPredictor("last"), reg=0.25, metric="euclidean", n_iter_max=13)
    pipe.fit(X, y, sample_domain=d)
    env.cover("done")
    f = C.fits("last")
    env.check(len(f) == 1, "the estimator is fitted once")
    ids = [int(v) for v in f[0]["X"][:, 1]]
    env.check(ids == tgt, "trained on the target rows")
    lab = sorted({int(y[i]) for i in src})
    if env.p["jc"]:
        m, = t.made
        env.check({k: m.kw[k] for k in ("reg_e", "metric", "max_iter", "tol")} ==
                  dict(reg_e=0.25, metric="euclidean", max_iter=13, tol=1e-3), "parameters reach the solver")
        order = [int(v) for v in m.Xt[:, 1]]
        sc = {j: [m.S[order.index(j), c] for c in range(len(lab))] for j in tgt}
    else:
        env.check(o.calls[0]["reg"] == 0.25 and o.calls[0].get("max_iter") == 13 and o.dists[0][2] == "euclidean",
                  "parameters reach the solver")
        sc = {j: [sum((o.G[a, b] if int(y[i]) == k else 0.0) for a, i in enumerate(src)) for k in lab]
              for b, j in enumerate(tgt)}
    for q, j in enumerate(ids):
        env.check_eq(f[0]["X"][q], X[j], "features unchanged")
        env.check(_argmax(sc[j], lab, f[0]["y"][q]), "trained with the propagated label")
    Z = env.reals("Z", (2, 2), -3, 3)
    env.check_eq(pipe.predict(Z), 3 * Z[:, 0] + C.tag(f[0]["X"]), "prediction by that estimator")


D4 = [(1, -1, 2, -2), (-1, 3, 3, -1), (0, -2, -1, 1)]
D5 = [(1, -2, 2, -1, -2)]
_c = dict(cover=["done"], time=90)
INSTANCES = [
    ("ot_classes", otlp, dict(n=4, d=D4, w=False), dict(_c, cost=3)),
    ("ot_weights", otlp, dict(n=4, d=D4, w=True, reg=0.5), dict(_c, cost=3, query_ms=5000)),
    ("ot_values", otlp, dict(n=4, d=D4, w=False, disc=False), dict(_c)),
    ("ot_values_w", otlp, dict(n=4, d=D4, w=True, disc=False), dict(_c, query_ms=5000)),
    ("jcpot", jcpot, dict(n=4, d=[(1, -1, 2, -2), (-1, 3, 3, -1), (-2, 1, -1, 1)]), dict(_c, cost=2)),
    ("jcpot_multi", jcpot, dict(n=7, y=(2, 3), d=[(1, -2, 2, -1, 1, 2, -2)]), dict(_c, cost=3)),
    ("pipe_ot", pipeline, dict(n=4, d=D4, jc=False), dict(_c)),
    ("pipe_jc", pipeline, dict(n=4, d=[(-2, 1, -1, 1), (1, -1, -2, 1)], jc=True), dict(_c)),
    ("ot_n6", otlp, dict(n=6, d=[(1, -1, 2, -2, 1, -1)], w=True), dict(_c, tier="thorough", time=900)),
]
