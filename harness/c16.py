"""C16 mapping adapters move source rows only, in place, with the map fitted on the right rows."""
import numpy as np
import ot.da
from sklearn.base import BaseEstimator

import skada._mapping as mp
from harness import common as C
from harness.c13 import _data
from skada import (ClassRegularizerOTMappingAdapter, CORALAdapter, EntropicOTMappingAdapter, LinearOTMappingAdapter,
                   MultiLinearMongeAlignmentAdapter, OTMappingAdapter)

ASSUMPTIONS = ["the transport estimators of POT and the Bures-Wasserstein maps are recording stubs returning an "
               "arbitrary map; eigh of a symmetric matrix returns any orthonormal eigenvectors (2x2)"]
PARAMS = {
    "emd": (OTMappingAdapter, "EMDTransport", dict(metric="euclidean", norm="max", max_iter=7),
            dict(metric="euclidean", norm="max", max_iter=7)),
    "sinkhorn": (EntropicOTMappingAdapter, "SinkhornTransport",
                 dict(reg_e=0.3, metric="euclidean", norm="max", max_iter=7, tol=1e-3),
                 dict(reg_e=0.3, metric="euclidean", norm="max", max_iter=7, tol=1e-3)),
    "lpl1": (ClassRegularizerOTMappingAdapter, "SinkhornLpl1Transport",
             dict(reg_e=0.3, reg_cl=0.7, norm="lpl1", metric="euclidean", max_iter=7, max_inner_iter=9, tol=1e-3),
             dict(reg_e=0.3, reg_cl=0.7, metric="euclidean", max_iter=7, max_inner_iter=9, tol=1e-3)),
    "l1l2": (ClassRegularizerOTMappingAdapter, "SinkhornL1l2Transport",
             dict(reg_e=0.3, reg_cl=0.7, norm="l1l2", metric="euclidean", max_iter=7, max_inner_iter=9, tol=1e-3),
             dict(reg_e=0.3, reg_cl=0.7, metric="euclidean", max_iter=7, max_inner_iter=9, tol=1e-3)),
    "linear": (LinearOTMappingAdapter, "LinearTransport", dict(reg=0.3, bias=False), dict(reg=0.3, bias=False)),
}
ALL = ["EMDTransport", "SinkhornTransport", "SinkhornLpl1Transport", "SinkhornL1l2Transport", "LinearTransport"]


def _stub(env, log):
    for name in ALL:
        class T(BaseEstimator):
            def __init__(self, **kw):
                self.__dict__.update(kw)
                self.kw = kw

            def get_params(self, deep=True):
                return dict(self.kw)

            def set_params(self, **k):
                self.__dict__.update(k)
                self.kw.update(k)
                return self

            def fit(self, Xs=None, ys=None, Xt=None, yt=None):
                log.append((self.name, self.kw, Xs, ys, Xt, yt))
                self.t_ = C.tag(Xs) + 3 * C.tag(Xt)
                return self

            def transform(self, Xs=None, **k):
                return 2.0 * Xs + self.t_

            def fit_transform(self, Xs=None, ys=None, Xt=None, yt=None):
                return self.fit(Xs, ys, Xt, yt).transform(Xs)
        T.name = name
        T.__name__ = name
        env.patch(ot.da, name, T)


def transport(env):
    cls, name, kw, want = PARAMS[env.p["kind"]]
    log = []
    _stub(env, log)
    X, d, src, tgt = _data(env, width=1)
    n = len(d)
    y = env.ints("y", n, -1, 2)
    X0, y0 = env.snapshot(X), env.snapshot(y)
    ad = cls(**kw)
    out = ad.fit_transform(X, y, sample_domain=d)
    env.check([l[0] for l in log] == [name], "one transport problem of the announced kind")
    _, got, Xs, ys, Xt, yt = log[0]
    env.check(all(got.get(k) == v for k, v in want.items()), f"parameters reach the solver: {got}")
    env.check_rows(Xs, [X[i] for i in src], "transports the source rows")
    env.check_rows(Xt, [X[i] for i in tgt], "onto the target rows")
    if ys is not None or env.p["kind"] in ("lpl1", "l1l2"):
        env.check_rows(ys, [y[i] for i in src], "with the source labels")
    if yt is not None:
        env.check_rows(yt, [y[i] for i in tgt], "and the target labels it was given")
    t = C.tag_of([X[i] for i in src]) + 3 * C.tag_of([X[i] for i in tgt])
    f = lambda x: 2.0 * x + t
    env.check(out.shape == (n, 1), "one row per row")
    for i in range(n):
        env.check_eq(out[i], f(X[i]) if i in src else X[i], "source rows moved in place, target rows unchanged")
    env.check_eq(X, X0, "input untouched")
    env.check_eq(y, y0, "labels untouched")
    env.cover("fitted")
    Z, e, s2, t2 = _data(env, 2, "2", need_t=False)
    out2 = ad.transform(Z, sample_domain=e, allow_source=True)
    for i in range(2):
        env.check_eq(out2[i], f(Z[i]) if i in s2 else Z[i], "new source rows moved, target rows unchanged")
    T = env.reals("T", (2, 1))
    env.check_eq(ad.transform(T), T, "rows without domain are target rows")
    env.check(len(log) == 1, "transform does not fit")


def _moments(X, bias):
    """weighted mean and covariance of the rows (uniform weights)"""
    n, w = X.shape
    m = [sum(X[i, j] for i in range(n)) / n if bias else 0.0 for j in range(w)]
    c = [[sum((X[i, a] - m[a]) * (X[i, b] - m[b]) for i in range(n)) / n for b in range(w)] for a in range(w)]
    return m, c


def monge(env):
    bias, w, n = env.p["bias"], env.p["width"], env.p["n"]
    d = env.array([env.pick(f"d{i}", env.p["opts"]) for i in range(n)], np.int64)
    src, tgt = C.sign_split(d)
    env.assume(len(src) > 0 and len(tgt) > 0)
    X = env.ints("X", (n, w), -3, 3) if env.p.get("ints") else env.reals("X", (n, w), -3, 3)
    calls = []

    def barycenter(m, C_, *a, **k):
        calls.append("bary")
        return np.sum(m, axis=0) + 0.5, np.sum(C_, axis=0) + 0.25

    def mapping(ms, mt, Cs, Ct, *a, **k):
        calls.append("map")
        return Cs + 2.0 * Ct, 3.0 * ms + 5.0 * mt
    for mod in (mp, ot.gaussian):
        env.patch(mod, "bures_wasserstein_barycenter", barycenter)
        env.patch(mod, "bures_wasserstein_mapping", mapping)
    ad = MultiLinearMongeAlignmentAdapter(bias=bias, reg=1e-8)
    X0 = env.snapshot(X)
    out = ad.fit_transform(X, sample_domain=d)
    doms = sorted(set(int(v) for v in d))
    mom = {k: _moments(X, [i for i in range(n) if int(d[i]) == k], bias) for k in doms}
    S = [k for k in doms if k >= 0]
    bm = [sum(mom[k][0][j] for k in S) + 0.5 for j in range(w)]
    bc = [[sum(mom[k][1][a][b] for k in S) + 0.25 for b in range(w)] for a in range(w)]

    def f(x, k):
        m, c = mom[k]
        return [sum(x[a] * (c[a][j] + 2.0 * bc[a][j]) for a in range(w)) + 3.0 * m[j] + 5.0 * bm[j] for j in range(w)]
    env.check(out.shape == (n, w), "one row per row")
    for i in range(n):
        env.check_eq(out[i], f(X[i], int(d[i])), "row mapped to the source barycenter by the map of its own domain")
    env.check_eq(X, X0, "input untouched")
    env.cover(f"{len(doms)} domains")
    m = env.p.get("m", 2)
    e = env.array([env.pick(f"e{i}", doms) for i in range(m)], np.int64)
    Z = env.reals("Z", (m, w), -3, 3)
    out2 = ad.transform(Z, sample_domain=e, allow_source=True)
    for i in range(m):
        env.check_eq(out2[i], f(Z[i], int(e[i])), "new row mapped by the map of its own domain")
    env.check(calls.count("bary") == 1, "transform does not fit")


def _moments(X, rows, bias):
    n, w = len(rows), X.shape[1]
    m = [sum(X[i, j] for i in rows) / n if bias else 0.0 for j in range(w)]
    return m, [[sum((X[i, a] - m[a]) * (X[i, b] - m[b]) for i in rows) / n for b in range(w)] for a in range(w)]


def _shrunk(c, reg):
    w = len(c)
    mu = sum(c[j][j] for j in range(w)) / w
    r = reg or 0.0
    return [[(1 - r) * c[a][b] + (r * mu if a == b else 0.0) for b in range(w)] for a in range(w)]


def coral1(env):
    """one feature: whitening and recolouring, every value symbolic"""
    reg, cent = env.p["reg"], env.p["centered"]
    n = env.p["n"]
    d = env.array([env.pick(f"d{i}", [1, -1]) for i in range(n)], np.int64)
    src, tgt = C.sign_split(d)
    env.assume(len(src) > 1 and len(tgt) > 1)
    X = env.reals("X", (n, 1), -3, 3)
    eig1 = lambda orig: (lambda a, *k, **kw: (a[0], np.ones((1, 1))) if a.shape == (1, 1) else orig(a, *k, **kw))
    env.patch(np.linalg, "eigh", eig1(np.linalg.eigh))
    (ms, cs), (mt, ct) = (_moments(X, r, not cent) for r in (src, tgt))
    vs, vt = cs[0][0], ct[0][0]
    env.assume((vs > 0.05) & (vt > 0.05))
    ad = CORALAdapter(reg=reg, assume_centered=cent)
    X0 = env.snapshot(X)
    out = ad.fit_transform(X, sample_domain=d)
    env.check_eq(X, X0, "input untouched")
    env.cover("fitted")

    def check(x, o, source, m):
        c = (0.0 if cent else (ms if source else mt)[0])
        u = x - c
        if not source:
            env.check_eq(o, u, "target rows are only centred" if not cent else "target rows unchanged")
            return
        env.check_eq(o * o * vs, u * u * vt, m, tol=1e-5)
        env.check_le(0.0, o * u, "the order of the source rows is kept", tol=1e-5)
    for i in range(n):
        check(X[i, 0], out[i, 0], i in src, "a source row gets the spread of the target")
    Z = env.reals("Z", (2, 1), -3, 3)
    e = env.array([1, -1], np.int64) if env.bool("e") else env.array([-1, 2], np.int64)
    o2 = ad.transform(Z, sample_domain=e, allow_source=True)
    for i in range(2):
        check(Z[i, 0], o2[i, 0], bool(e[i] >= 0), "a new source row gets the spread of the target")


def coral2(env):
    """two features: the linear map carries the source covariance onto the target's"""
    reg, cent = env.p["reg"], env.p["centered"]
    S = np.array(env.pick("S", env.p["S"]), float)
    T = np.array(env.pick("T", env.p["T"]), float)
    order = env.perm("o", 2)
    n = len(S) + len(T)
    # interleave: source first or target first, then alternate
    pos = [i for i in range(n) if (i + order[0]) % 2 == 0][: len(S)]
    pos += [i for i in range(n) if i not in pos][: len(S) - len(pos)]
    X, d = np.empty((n, 2)), np.full(n, -2)
    d[pos] = 1
    X[d > 0], X[d < 0] = S, T
    ad = CORALAdapter(reg=reg, assume_centered=cent).fit(X, sample_domain=d)
    x = env.reals("x", (3, 2), -3, 3)
    out = ad.transform(x, sample_domain=np.array([1, -2, 1]), allow_source=True)
    from skada._utils import _estimate_covariance
    cs, ct = (_estimate_covariance(A, shrinkage=reg, assume_centered=cent) for A in (S, T))
    ms, mt = (0 * S[0], 0 * T[0]) if cent else (S.mean(0), T.mean(0))
    env.check_eq(out[1], x[1] - mt, "target rows are only centred")
    base = ad.transform(np.vstack([ms, ms + [1, 0], ms + [0, 1]]), sample_domain=np.ones(3, int), allow_source=True)
    env.check_eq(base[0], [0.0, 0.0], "the source mean goes to the origin")
    A = base[1:]
    env.check_eq(A.T @ cs @ A, ct, "the map carries the source covariance onto the target covariance", tol=1e-5)
    for r in (0, 2):
        env.check_eq(out[r], (x[r] - ms) @ A, "one affine map for every source row", tol=1e-5)
    env.cover("fitted")


_s = dict(cover=["fitted"], time=100)
_S = [[[0, 1], [2, 1.5], [1, -1], [3, 3]], [[1, 0], [0, 2], [-1, -1], [2, 2.5]]]
_T = [[[5, 1], [2, 1], [4, -2]], [[1, 0.5], [0, 0], [0.5, -1]]]
INSTANCES = [(k, transport, dict(n=3, kind=k), dict(_s)) for k in PARAMS] + [
    ("monge", monge, dict(n=3, width=1, bias=True, opts=[1, 2, -1, -3]), dict(cover=["2 domains", "3 domains"], time=100)),
    ("monge_int", monge, dict(n=3, width=1, bias=True, opts=[1, -2], ints=True), dict(cover=["2 domains"], time=100)),
    ("monge_centred", monge, dict(n=3, width=2, bias=False, opts=[1, -2], m=1), dict(cover=["2 domains"], time=100)),
    ("coral1", coral1, dict(n=4, reg=None, centered=False), dict(_s, exact_sqrt=True)),
    ("coral1_reg", coral1, dict(n=4, reg=0.25, centered=False), dict(_s, exact_sqrt=True)),
    ("coral1_centred", coral1, dict(n=4, reg=None, centered=True), dict(_s, exact_sqrt=True)),
    ("coral2", coral2, dict(reg=None, centered=False, S=_S, T=_T), dict(_s)),
    ("coral2_reg", coral2, dict(reg=0.3, centered=True, S=_S, T=_T), dict(_s)),
    ("coral2_auto", coral2, dict(reg="auto", centered=False, S=_S, T=_T), dict(_s)),
    ("monge_n4", monge, dict(n=4, width=1, bias=True, opts=[1, 2, -1, -3]), dict(cover=["4 domains"], tier="thorough")),
    ("emd_n4", transport, dict(n=4, kind="emd"), dict(_s, tier="thorough")),
]
