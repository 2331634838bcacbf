"""C25 the deep dataset keeps every sample's fields together."""
import numpy as np
import torch

from skada.datasets import DomainAwareDataset
from skada.deep.base import DeepDADataset

TORCH = True
torch.set_default_dtype(torch.float64)
ASSUMPTIONS = ["default tensor type float64 (so that no rounding separates arrays and tensors)",
               "labels are finite; -1 stands for 'no label'"]


class Row:
    def __init__(self, x, y, d, w):
        self.x, self.y, self.d, self.w = x, y, d, w


def _fields(env, n, pre="", ydt="int", dom=2, cols=1):
    X = env.reals(f"{pre}X", (n, cols))
    y = env.ints(f"{pre}y", n, -1, 2) if ydt == "int" else env.reals(f"{pre}y", n, 0, 9)
    d = env.ints(f"{pre}d", n, -dom, dom)
    w = env.reals(f"{pre}w", n, 0, 9)
    return X, y, d, w


def _rows(X, y, d, w, has=("y", "d", "w")):
    return [Row(X[i], y[i] if "y" in has else -1, d[i] if "d" in has else 0, w[i] if "w" in has else None)
            for i in range(X.shape[0])]


def _same(env, ds, rows, msg, weights, float_y=False):
    """ds holds exactly these rows, in this order"""
    n = len(rows)
    env.check(len(ds) == n, f"{msg}: number of samples")
    env.check(tuple(ds.y.shape) == (n,) and tuple(ds.sample_domain.shape) == (n,) and ds.X.shape[0] == n,
              f"{msg}: one label and one domain per sample")
    X, y, d = env.arr(ds.X), env.arr(ds.y), env.arr(ds.sample_domain)
    weights = weights and n > 0
    env.check(bool(ds.has_weights) == weights, f"{msg}: weighted or not")
    w = env.arr(ds.sample_weight) if weights else None
    if weights:
        env.check(tuple(ds.sample_weight.shape) == (n,), f"{msg}: one weight per sample")
    hy = env.arr(ds.has_y)
    env.check(tuple(ds.has_y.shape) == (n,), f"{msg}: one labelled flag per sample")
    arrs, dic = ds.as_arrays(), ds.as_dict()
    env.check(len(arrs) == (4 if weights else 3), f"{msg}: as_arrays returns the weights if any")
    env.check(set(dic) == {"X", "y", "sample_domain", "sample_idx"} | ({"sample_weight"} if weights else set()),
              f"{msg}: keys of as_dict")
    idx = env.arr(dic["sample_idx"])
    seen = []
    for i, r in enumerate(rows):
        env.check_eq(X[i], r.x, f"{msg}: features")
        env.check_eq(y[i], r.y, f"{msg}: label")
        env.check_eq(d[i], r.d, f"{msg}: domain")
        env.check_eq(hy[i], r.y != -1, f"{msg}: labelled unless -1")
        rank = sum(1 for q in seen if q == r.d)
        seen.append(r.d)
        env.check_eq(idx[i], rank, f"{msg}: index of the sample within its domain")
        item, yi = ds[i]
        env.check_eq(env.arr(item["X"]), r.x, f"{msg}: item features")
        env.check_eq(env.arr(item["sample_domain"]), r.d, f"{msg}: item domain")
        env.check_eq(env.arr(item["sample_idx"]), rank, f"{msg}: item index")
        env.check_eq(env.arr(yi), r.y, f"{msg}: item label")
        if weights:
            env.check_eq(w[i], r.w, f"{msg}: weight")
            env.check_eq(env.arr(item["sample_weight"]), r.w, f"{msg}: item weight")
        else:
            env.check("sample_weight" not in item, f"{msg}: no weight in an item without weights")
        for got, want in zip(arrs, (r.x, r.y, r.d, r.w)):
            env.check_eq(env.arr(got[i]), want, f"{msg}: as_arrays")
        for key, want in (("X", r.x), ("y", r.y), ("sample_domain", r.d)):
            env.check_eq(env.arr(dic[key][i]), want, f"{msg}: as_dict")
    if n:
        env.check(ds.y.dtype.is_floating_point == float_y, f"{msg}: integer labels stay integers, real ones real")


def _give(env, form, X, y, d, w, has):
    """the same data in one of the accepted representations"""
    t = env.tensor if "tensor" in form else (lambda a: a)
    if "list" in form:
        t = lambda a: a.tolist()
    kw = {}
    if "y" in has:
        kw["y"] = t(y)
    if "d" in has:
        kw["sample_domain"] = t(d)
    if "w" in has:
        kw["sample_weight"] = t(w)
    if form.startswith("dict"):
        return DeepDADataset(dict(X=t(X), **kw))
    if form == "mixed":
        # only X in the dict, the rest as arguments
        return DeepDADataset(dict(X=X), **kw)
    if form == "dataset":
        return DeepDADataset(DeepDADataset(X, **kw))
    if form == "frame":
        import pandas as pd
        cols = dict(X=list(X[:, 0]), **{k: list(v) for k, v in kw.items()})
        return DeepDADataset(pd.DataFrame({k: pd.Series(v, dtype=object) for k, v in cols.items()}))
    if form == "positional":
        return DeepDADataset(t(X), kw.get("y"), kw.get("sample_domain"), kw.get("sample_weight"))
    return DeepDADataset(t(X), **kw)


def build(env):
    n, form, ydt = env.p["n"], env.p["form"], env.p.get("ydt", "int")
    X, y, d, w = _fields(env, n, ydt=ydt, cols=env.p.get("cols", 1))
    has = [f for f in ("y", "d", "w") if env.pick(f"has_{f}", [True, False])]
    snaps = [env.snapshot(v) for v in (X, y, d, w)]
    ds = _give(env, form, X, y, d, w, has)
    env.cover("built")
    rows = _rows(X, y, d, w, has)
    if form == "frame":
        for r in rows:
            r.x = r.x[0]
    _same(env, ds, rows, "built", "w" in has, float_y=ydt == "real" and "y" in has)
    for a, b in zip((X, y, d, w), snaps):
        env.check_eq(a, b, "given arrays untouched")


def _weighted(env):
    return env.pick("weighted", [True, False])


def select(env):
    n, on = env.p["n"], env.p["on"]
    X, y, d, w = _fields(env, n)
    wt = on == "sample_weight" or _weighted(env)
    ds = DeepDADataset(X, y, d, w if wt else None)
    c = env.real("c", -100, 100) if on in ("X", "sample_weight") else env.int("c", -2, 2)
    kw = dict(return_weights=False) if env.pick("drop_weights", [False, True]) else {}
    rows = _rows(X, y, d, w)
    if on == "X":
        got = ds.select(lambda v: v[:, 0] > c, on="X", **kw)
        keep = [r for r in rows if r.x[0] > c]
    elif on == "y":
        got = ds.select(lambda v: v <= c, on="y", **kw)
        keep = [r for r in rows if r.y != -1 and r.y <= c]
    elif on == "sample_domain":
        got = ds.select(lambda v: v > c, on="sample_domain", **kw)
        keep = [r for r in rows if r.d > c]
    else:
        got = ds.select(lambda v: v > c, on="sample_weight", **kw)
        keep = [r for r in rows if r.w > c]
    env.cover("selected")
    if keep and len(keep) < n:
        env.cover("proper part")
    _same(env, got, keep, "select", wt and not kw)
    _same(env, ds, rows, "the dataset itself is unchanged", wt)


def split(env):
    n, how = env.p["n"], env.p["how"]
    X, y, d, w = _fields(env, n)
    wt = _weighted(env)
    kw = dict(return_weights=False) if env.pick("drop_weights", [False, True]) else {}
    out = wt and not kw
    ds = DeepDADataset(X, y, d, w if wt else None)
    rows = _rows(X, y, d, w)
    if how == "source":
        got, keep = ds.select_source(**kw), [r for r in rows if r.d >= 0]
    elif how == "target":
        got, keep = ds.select_target(**kw), [r for r in rows if r.d < 0]
    elif how == "labels":
        got, keep = ds.select_with_labels(**kw), [r for r in rows if r.y != -1]
    elif how == "domain":
        k = env.pick("k", [-2, -1, 0, 1, 2])
        got, keep = ds.select_domain(k, **kw), [r for r in rows if r.d == k]
    else:
        env.cover("split")
        got = ds.per_domain_split(**kw)
        for k in range(-2, 3):
            keep = [r for r in rows if r.d == k]
            env.check((k in got) == bool(keep), "one entry per domain present")
            if keep and k in got:
                _same(env, got[k], keep, "per_domain_split", out)
        env.check(all(k in range(-2, 3) for k in got), "no other domain")
        env.check(set(ds.domains()) == set(got), "domains() lists the domains present")
        return
    env.cover("split")
    if keep and len(keep) < n:
        env.cover("proper part")
    _same(env, got, keep, how, out)


def merge(env):
    n, m = env.p["sizes"]
    A = _fields(env, n, "a", dom=1)
    B = _fields(env, m, "b", dom=1)
    wa, wb = env.pick("wa", [True, False]), env.pick("wb", [True, False])
    la, lb = env.pick("la", [True, False]), env.pick("lb", [True, False])
    a = DeepDADataset(A[0], A[1] if la else None, A[2], A[3] if wa else None)
    b = DeepDADataset(B[0], B[1] if lb else None, B[2], B[3] if wb else None)
    how = env.pick("how", ["new", "in place", "add_domain", "add_domain dict", "add_domain tuple"])
    keep = how in ("new", "in place") and env.pick("keep", [True, False])
    ra = _rows(*A, has=(["y"] if la else []) + ["d", "w"])
    rb = _rows(*B, has=(["y"] if lb else []) + ["d", "w"])
    if keep and wa != wb:
        env.cover("one side unweighted")
        env.raises(lambda: a.merge(b, keep_weights=True, out=how == "new"), AssertionError,
                   "weights for only part of the samples are refused")
        return
    if how == "new":
        got = a.merge(b, keep_weights=keep) if keep else a.merge(b)
    elif how == "in place":
        env.check(a.merge(b, keep_weights=keep, out=False) is None, "in place merge returns nothing")
        got = a
    elif how == "add_domain":
        got = a.add_domain(b)
    elif how == "add_domain dict":
        dic = dict(X=B[0], sample_domain=B[2])
        if lb:
            dic["y"] = B[1]
        got = a.add_domain(dic)
    else:
        got = a.add_domain((B[0], B[1] if lb else None, B[2]))
    env.cover("merged")
    _same(env, got, ra + rb, "merge", keep and wa)
    if how != "in place":
        _same(env, a, ra, "the merged datasets are unchanged", wa)
    _same(env, b, rb, "the merged datasets are unchanged", wb)


def weights(env):
    n = env.p["n"]
    X, y, d, w = _fields(env, n)
    v = env.reals("v", n, 0, 9)
    ds = DeepDADataset(X, y, d, w if _weighted(env) else None)
    give = v if env.pick("form", ["array", "tensor"]) == "array" else env.tensor(v)
    got = ds.add_weights(give)
    env.cover("added")
    env.check(got is ds, "add_weights returns the dataset")
    _same(env, ds, _rows(X, y, d, v), "add_weights", True)
    k = env.pick("k", [-1, 1])
    _same(env, ds.select_domain(k), [r for r in _rows(X, y, d, v) if r.d == k], "added weights follow their rows", True)
    env.raises(lambda: DeepDADataset(X, y, d).add_weights(v[:n - 1]), AssertionError, "one weight per sample or none")
    env.check(ds.remove_weights() is ds, "remove_weights returns the dataset")
    _same(env, ds, _rows(X, y, d, v), "remove_weights", False)
    env.raises(lambda: ds.select(lambda q: q > 0, on="sample_weight"), ValueError, "no weights to select on")


def lengths(env):
    """fields of different lengths are refused, never misaligned"""
    n = 2
    X, y, d, w = _fields(env, n)
    bad = env.p["bad"]
    more = dict(y=env.ints("y2", n + 1, -1, 2), d=env.ints("d2", n + 1, -2, 2), w=env.reals("w2", n + 1, 0, 9))
    short = dict(y=y[:1], d=d[:1], w=w[:1])
    src = more if env.pick("longer", [True, False]) else short
    y = src["y"] if bad == "y" else y
    d = src["d"] if bad == "d" else d
    w = src["w"] if bad == "w" else w
    env.cover("refused")
    env.raises(lambda: DeepDADataset(X, y, d, w), (AssertionError, ValueError), "fields of different lengths are refused")


def pack(env):
    """packing domains as tensors or as a deep dataset gives the rows of the array packing"""
    dt, rt = env.p["dt"], env.p["rt"]
    sizes = [env.pick(f"n{k}", [1, 2]) for k in range(2)]
    ds = DomainAwareDataset()
    data = []
    tens = env.p.get("tens", False)
    for k, n in enumerate(sizes):
        X = env.reals(f"X{k}", (n, 2))
        y = env.reals(f"y{k}", n, 0, 9) if dt == "real" else env.ints(f"y{k}", n, 0, 3)
        data.append((X, y))
        ds.add_domain(env.tensor(X) if tens else X, env.tensor(y) if tens else y, f"d{k}")
    role = [env.pick(f"role{k}", ["source", "target", "both"]) for k in range(2)]
    srcs = [k for k in range(2) if role[k] != "target"]
    tgts = [k for k in range(2) if role[k] != "source"]
    env.assume(len(srcs) + len(tgts) > 0)
    mask = env.pick("mask", [True, False])
    got = ds.pack([f"d{k}" for k in srcs], [f"d{k}" for k in tgts], mask_target_labels=mask, return_type=rt)
    env.cover("packed")
    rows = [(k, i, 1) for k in srcs for i in range(sizes[k])] + [(k, i, -1) for k in tgts for i in range(sizes[k])]
    if rt == "tensor":
        X, y, d = got
        env.check(all(isinstance(v, torch.Tensor) for v in got), "tensors are returned")
    else:
        env.check(isinstance(got, DeepDADataset), "a deep dataset is returned")
        X, y, d = got.X, got.y, got.sample_domain
        env.check(not got.has_weights, "no weights")
    X, y, d = env.arr(X), env.arr(y), env.arr(d)
    env.check(X.shape[0] == y.shape[0] == d.shape[0] == len(rows), "one row per sample of the requested domains")
    for j, (k, i, s) in enumerate(rows):
        env.check_eq(X[j], data[k][0][i], "sources first, then targets, rows in order")
        env.check_eq(d[j], s * (k + 1), "positive as source, negative as target")
        if s < 0 and mask:
            env.cover("masked")
            env.check(np.isnan(y[j]) if dt == "real" else y[j] == -1, "target labels are masked")
        else:
            env.check_eq(y[j], data[k][1][i], "labels kept")


INSTANCES = []
for form in ("array", "tensor", "dict", "dict tensor", "mixed", "dataset", "frame", "positional", "dict list"):
    INSTANCES.append((f"build_{form.replace(' ', '_')}", build, dict(n=3 if form in ("array", "tensor") else 2, form=form),
                      dict(cover=["built"], cost=4 if form in ("array", "tensor") else 1)))
INSTANCES += [
    ("build_real", build, dict(n=2, form="array", ydt="real"), dict(cover=["built"])),
    ("build_cols", build, dict(n=2, form="dict tensor", cols=2), dict(cover=["built"])),
    ("build_4", build, dict(n=4, form="array"), dict(cover=["built"], tier="thorough")),
]
for on in ("X", "y", "sample_domain", "sample_weight"):
    INSTANCES.append((f"select_{on}", select, dict(n=2, on=on), dict(cover=["selected", "proper part"], cost=3)))
    INSTANCES.append((f"select3_{on}", select, dict(n=3, on=on), dict(cover=["selected", "proper part"], tier="thorough")))
for how in ("source", "target", "labels", "domain", "each"):
    INSTANCES.append((f"split_{how}", split, dict(n=3, how=how),
                      dict(cover=["split"] + (["proper part"] if how != "each" else []), cost=5)))
INSTANCES += [
    ("merge_11", merge, dict(sizes=(1, 1)), dict(cover=["merged"], cost=5)),
    ("merge_21", merge, dict(sizes=(2, 1)), dict(cover=["merged"], cost=9)),
    ("merge_22", merge, dict(sizes=(2, 2)), dict(cover=["merged"], tier="thorough")),
    ("weights", weights, dict(n=2), dict(cover=["added"])),
]
for bad in "ydw":
    INSTANCES.append((f"lengths_{bad}", lengths, dict(bad=bad), dict(cover=["refused"])))
for rt in ("tensor", "DeepDADataset"):
    for dt in ("int", "real"):
        INSTANCES.append((f"pack_{rt}_{dt}", pack, dict(rt=rt, dt=dt), dict(cover=["packed", "masked"], cost=2)))
INSTANCES += [
    ("pack_of_tensors_int", pack, dict(rt="tensor", dt="int", tens=True), dict(cover=["packed", "masked"])),
    ("pack_of_tensors_real", pack, dict(rt="tensor", dt="real", tens=True), dict(cover=["packed", "masked"])),
    ("pack_of_tensors_deep", pack, dict(rt="DeepDADataset", dt="int", tens=True), dict(cover=["packed", "masked"])),
]
