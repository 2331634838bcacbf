"""C20 subsamplers keep an aligned, duplicate-free subset at fit time and change nothing at predict time."""
import math

import numpy as np

from harness import common as C
from skada.transformers import DomainSubsampler, StratifiedDomainSubsampler, Subsampler
from skada import make_da_pipeline

ASSUMPTIONS = ["the random generator is replaced by one whose permutations/choices are arbitrary"]
KIND = dict(plain=Subsampler, domain=DomainSubsampler, strat=StratifiedDomainSubsampler)


def _data(env):
    n = env.p["n"]
    x = env.reals("x", n, -10, 10)
    X = np.stack([x, np.arange(n) * 1.0], axis=1)
    if "pattern" in env.p:
        d = env.array(env.p["pattern"], np.int64)
    else:
        d = env.ints("d", n, *env.p.get("drange", (-2, 2)))
    y = env.ints("y", n, *env.p.get("y", (0, 3)))
    w = env.reals("w", n, 0, 5) if env.p["w"] else None
    return X, y, d, w


def _kept(n, size):
    return min(size, n) if isinstance(size, int) else math.floor(size * n) if size < 1 else n


def subsample(env):
    n, kind = env.p["n"], env.p["kind"]
    X, y, d, w = _data(env)
    size = env.pick("size", env.p["sizes"])
    t = KIND[kind](train_size=size, random_state=C.NDRng(env))
    args = [env.snapshot(a) for a in (X, y, d, w)]
    want = _kept(n, size)
    if want < n:
        key = {"plain": [0] * n, "domain": [int(v) for v in d], "strat": [(int(y[i]), int(d[i])) for i in range(n)]}[kind]
        groups = {k: key.count(k) for k in key}
        if kind != "plain" and (min(groups.values()) < 2 or want < len(groups) or n - want < len(groups)):
            env.cover("rejected")
            env.raises(lambda: t.fit_transform(X, y, sample_domain=d, sample_weight=w), ValueError,
                       "groups that cannot be kept in proportion are rejected")
            return
    else:
        key = None
    out = t.fit_transform(X, y, sample_domain=d, sample_weight=w)
    env.check(len(out) == 3, "features, labels and parameters come out")
    Xs, ys, p = out
    env.check(len(Xs) == want, "as many rows as asked")
    env.check(set(p) == ({"sample_domain"} if w is None else {"sample_domain", "sample_weight"}), "parameters in, parameters out")
    ids = [int(Xs[k, 1]) for k in range(len(Xs))]
    env.check(len(set(ids)) == len(ids) and all(0 <= i < n for i in ids), "no row is kept twice")
    env.check_rows(Xs[:, 0], [X[i, 0] for i in ids], "rows are unchanged")
    env.check_rows(ys, [args[1][i] for i in ids], "each row keeps its label")
    env.check_rows(p["sample_domain"], [args[2][i] for i in ids], "each row keeps its domain")
    if w is not None:
        env.check_rows(p["sample_weight"], [args[3][i] for i in ids], "each row keeps its weight")
    if want >= n:
        env.cover("all")
        env.check(ids == list(range(n)), "all rows in order")
    else:
        env.cover("some")
        for k, c in (groups.items() if kind != "plain" else ()):
            got = len([i for i in ids if key[i] == k])
            env.check(abs(got - c * want / n) < 1 - 1e-9, "each group keeps its share")
    for a, b in zip((X, y, d, w), args):
        if a is not None:
            env.check_eq(a, b, "the caller's arrays are untouched")
    Z = env.reals("Z", (2, 2))
    env.check_eq(t.transform(Z), Z, "nothing changes at predict time")
    env.check_eq(t.transform(Z, sample_domain=np.array([-1, -1])), Z, "nothing changes at predict time")


def pipeline(env):
    """in a pipeline the steps after the subsampler see the kept rows, aligned; prediction sees every row"""
    C.reset()
    n = env.p["n"]
    X, y, d, w = _data(env)
    kind = env.p["kind"]
    src, tgt = C.sign_split(d)
    sub = KIND[kind](train_size=env.p["size"], random_state=C.NDRng(env))
    last = C.RecDomainPredictor("last")
    last.set_fit_request(sample_domain=True, sample_weight=w is not None)
    pipe = make_da_pipeline(sub, last)
    y0 = env.snapshot(y)
    kw = {} if w is None else dict(sample_weight=w)
    pipe.fit(X, y, sample_domain=d, **kw)
    f = C.fits("last")
    env.check(len(f) == 1, "the estimator is fitted once")
    f = f[0]
    ids = [int(f["X"][k, 1]) for k in range(len(f["X"]))]
    env.cover("fitted")
    env.check(len(set(ids)) == len(ids), "no row twice")
    env.check_rows(f["X"][:, 0], [X[i, 0] for i in ids], "rows are unchanged")
    env.check(f["d"] is not None and len(f["d"]) == len(ids), "domains aligned")
    env.check_rows(f["d"], [d[i] for i in ids], "each row keeps its domain")
    if w is not None:
        env.check_rows(f["w"], [w[i] for i in ids], "each row keeps its weight")
    for k, i in enumerate(ids):
        if i in src:
            env.check_eq(f["y"][k], y0[i], "source rows keep their label")
        else:
            env.check_eq(f["y"][k], -1, "target labels are masked")
    env.check(len(ids) == env.p["size"], "as many rows as asked")
    Z = env.reals("Z", (3, 2))
    pred = pipe.predict(Z)
    t = C.tag(f["X"])
    env.check_rows(pred, [3 * Z[i, 0] + t for i in range(3)], "every row gets its prediction, in order")


P1 = (1, -1, 1, -1, 1)
INSTANCES = [
    ("plain", subsample, dict(n=4, kind="plain", w=True, pattern=(-1, 2, 0, -1), y=(1, 3), sizes=[1, 3, 4, 7, 0.5, 1.0]), dict(cover=["some", "all"], cost=4)),
    ("plain_any", subsample, dict(n=3, kind="plain", w=False, drange=(-1, 1), y=(0, 1), sizes=[2, 3]), dict(cover=["some", "all"], cost=3, time=100, max_paths=20000)),
    ("domain", subsample, dict(n=4, kind="domain", w=True, y=(1, 2), pattern=(1, -1, 1, -1), sizes=[2, 3, 4, 9, 0.5, 1.0]), dict(cover=["some", "all", "rejected"], cost=3, time=100, max_paths=20000)),
    ("domain3", subsample, dict(n=6, kind="domain", w=True, y=(1, 1), pattern=(1, -2, 1, 3, -2, 3), sizes=[3]), dict(cover=["some"], cost=4, time=100)),
    ("strat", subsample, dict(n=4, kind="strat", w=True, y=(0, 1), pattern=(1, -1, 1, -1), sizes=[2, 4, 0.5, 1.0]), dict(cover=["some", "all", "rejected"], cost=3, time=100)),
    ("strat5", subsample, dict(n=5, kind="strat", w=False, y=(0, 1), pattern=P1, sizes=[2, 3]), dict(cover=["some", "rejected"], cost=3, time=100)),
    ("pipe_plain", pipeline, dict(n=4, kind="plain", w=False, pattern=(1, -1, 2, -1), size=2), dict(cover=["fitted"], cost=2, time=100)),
    ("pipe_domain", pipeline, dict(n=4, kind="domain", w=False, pattern=(-1, 2, -1, 2), size=2), dict(cover=["fitted"], cost=2, time=100)),
    ("pipe_strat", pipeline, dict(n=4, kind="strat", w=False, pattern=(-1, 2, 2, -1), y=(1, 1), size=2), dict(cover=["fitted"], cost=2, time=100)),
    ("strat_n8", subsample, dict(n=8, kind="strat", w=False, y=(0, 1), pattern=(1, -1) * 4, sizes=[4]), dict(cover=["some"], cost=3, tier="thorough")),
    ("plain_n5", subsample, dict(n=5, kind="plain", w=True, y=(0, 1), sizes=[1, 3, 4, 0.5]), dict(cover=["some"], cost=3, tier="thorough")),
]
