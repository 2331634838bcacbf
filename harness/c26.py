"""C26 balanced batches."""
import torch

from harness.deep import arbitrary_shuffles
from skada.deep.base import (
    DeepDADataset,
    DomainBalancedDataLoader,
    DomainBalancedSampler,
    DomainOnlyDataLoader,
    DomainOnlySampler,
)

TORCH = True
ASSUMPTIONS = ["torch.randperm returns an arbitrary permutation (all of them are covered)",
               "single process loading (num_workers=0)",
               "both sides are present for the balanced sampler"]


def _data(env, n, weights=False):
    d = env.array(env.pick("cut", env.p["cuts"])) if "cuts" in env.p else env.ints("d", n, *env.p.get("dom", (-1, 0)))
    X = env.reals("X", (n, 2))
    y = env.ints("y", n, -1, 3)
    w = env.reals("w", n, 0, 5) if weights else None
    return DeepDADataset(X, y, d, w), X, y, d, w


def _sides(d):
    pos = [i for i in range(len(d)) if d[i] >= 0]
    return pos, [i for i in range(len(d)) if i not in pos]


def _floor(k, b):
    return k - k % b


def _length(opt, np_, nn, b):
    s, t = _floor(np_, b), _floor(nn, b)
    return dict(max=max(s, t), min=min(s, t), source=s, target=t)[opt]


def _passes(env, seq, side, msg):
    """seq is a sequence of complete passes over side (the last one possibly partial)"""
    m = len(side)
    for k in range(0, len(seq), m):
        part = seq[k:k + m]
        env.check(len(set(part)) == len(part), f"{msg}: no sample twice before every sample was used")
    env.check(set(seq) <= set(side), f"{msg}: only samples of that side")
    if len(seq) >= m:
        env.check(set(seq) == set(side), f"{msg}: every sample is used")


def balanced(env):
    n, b = env.p["n"], env.p["b"]
    ds, X, y, d, w = _data(env, n)
    pos, neg = _sides(d)
    env.assume(len(pos) > 0 and len(neg) > 0)
    opt = env.pick("opt", env.p.get("opts", ["default", "max", "min", "source", "target"]))
    arbitrary_shuffles(env)
    sam = DomainBalancedSampler(ds, b) if opt == "default" else DomainBalancedSampler(ds, b, max_samples=opt)
    opt = "max" if opt == "default" else opt
    env.cover(opt)
    m = _length(opt, len(pos), len(neg), b)
    seq = list(sam)
    env.check(len(seq) == len(sam) == 2 * m, "announced length: a multiple of the batch size per side")
    env.check(all(i in pos for i in seq[0::2]) and all(i in neg for i in seq[1::2]), "source and target alternate")
    _passes(env, seq[0::2], pos, "source")
    _passes(env, seq[1::2], neg, "target")
    if env.p.get("twice"):
        seq = list(sam)
        env.check(len(seq) == 2 * m, "a second epoch has the same length")
        _passes(env, seq[0::2], pos, "second epoch, source")
        _passes(env, seq[1::2], neg, "second epoch, target")


def only(env):
    n, b = env.p["n"], env.p["b"]
    ds, X, y, d, w = _data(env, n)
    pos, neg = _sides(d)
    use = env.pick("use", ["default", "source", "target"])
    side = neg if use == "target" else pos
    env.assume(len(side) > 0)
    arbitrary_shuffles(env)
    sam = DomainOnlySampler(ds, b) if use == "default" else DomainOnlySampler(ds, b, domain_used=use)
    env.cover(use)
    for epoch in range(env.p.get("epochs", 2)):
        seq = list(sam)
        env.check(len(seq) == len(sam) == _floor(len(side), b), "announced length: full batches only")
        env.check(set(seq) <= set(side), "only rows of the requested side")
        env.check(len(set(seq)) == len(seq), "every sample at most once per epoch")
    env.raises(lambda: DomainOnlySampler(ds, b, domain_used="both"), ValueError, "unknown side refused")


def _batches(env, ds, loader, size, n, weights, balanced, side, X, y, d, w):
    arrs = ds.as_dict()
    idx = env.arr(arrs["sample_idx"])
    nb = 0
    used = []
    for Xb, yb in loader:
        nb += 1
        env.check(set(Xb) == {"X", "sample_domain", "sample_idx"} | ({"sample_weight"} if weights else set()),
                  "fields of a batch")
        rows = env.arr(Xb["X"])
        env.check(rows.shape[0] == size and env.arr(yb).shape[0] == size, "full batches")
        dom, yy, ii = env.arr(Xb["sample_domain"]), env.arr(yb), env.arr(Xb["sample_idx"])
        ww = env.arr(Xb["sample_weight"]) if weights else None
        for k in range(rows.shape[0]):
            # the first column numbers the rows
            i = int(rows[k, 0])
            used.append(i)
            env.check_eq(rows[k], X[i], "row of the dataset")
            env.check_eq(yy[k], y[i], "its label")
            env.check_eq(dom[k], d[i], "its domain")
            env.check_eq(ii[k], idx[i], "its index within the domain")
            if weights:
                env.check_eq(ww[k], w[i], "its weight")
        ns = sum(1 for k in range(rows.shape[0]) if dom[k] >= 0)
        if balanced:
            env.check(2 * ns == size, "as many source as target rows in each batch")
        else:
            env.check(ns == (size if side == "source" else 0), "only the requested side")
    return nb, used


def loader(env):
    n, b, weights = env.p["n"], env.p["b"], env.p.get("weights", False)
    ds, X, y, d, w = _data(env, n, weights)
    for i in range(n):
        X[i, 0] = float(i)
    ds = DeepDADataset(X, y, d, w)
    pos, neg = _sides(d)
    which = env.pick("which", ["balanced", "source", "target"])
    env.assume(len(pos) > 0 and len(neg) > 0)
    arbitrary_shuffles(env)
    env.cover(which)
    if which == "balanced":
        opt = env.pick("opt", ["max", "min", "source", "target"])
        ld = DomainBalancedDataLoader(ds, b, max_samples=opt)
        m = _length(opt, len(pos), len(neg), b)
        nb, used = _batches(env, ds, ld, 2 * b, n, weights, True, None, X, y, d, w)
        _passes(env, [i for i in used if i in pos], pos, "source")
        _passes(env, [i for i in used if i in neg], neg, "target")
    else:
        ld = DomainOnlyDataLoader(ds, b, domain_used=which)
        m = _floor(len(pos if which == "source" else neg), b)
        nb, used = _batches(env, ds, ld, b, n, weights, False, which, X, y, d, w)
        env.check(len(set(used)) == len(used), "every sample at most once per epoch")
    env.check(nb == len(ld) == m // b, "number of batches")


O5 = ["max", "min", "source", "target"]
INSTANCES = [
    ("balanced_4_1", balanced, dict(n=4, b=1), dict(cover=O5, cost=5)),
    ("balanced_4_2", balanced, dict(n=4, b=2), dict(cover=O5, cost=5)),
    ("balanced_4_2_twice", balanced, dict(n=4, b=2, twice=True), dict(cover=O5, cost=5)),
    ("balanced_4_3", balanced, dict(n=4, b=3), dict(cover=O5, cost=3)),
    ("balanced_5_2", balanced, dict(n=5, b=2), dict(cover=O5, cost=9, max_paths=40000)),
    ("balanced_5_1", balanced, dict(n=5, b=1), dict(cover=O5, tier="thorough", max_paths=100000)),
    ("balanced_6_2", balanced, dict(n=6, b=2), dict(cover=O5, tier="thorough", max_paths=100000)),
    ("balanced_3_domains", balanced, dict(n=3, b=1, dom=(-2, 1)), dict(cover=O5, cost=3)),
    # a side gone through several times
    ("balanced_passes", balanced, dict(n=6, b=2, opts=["max"], cuts=[[0, -1, 0, 0, -1, 0], [-1, -1, 0, -1, 0, -1]]),
     dict(cover=["max"], cost=6)),
    ("balanced_passes_3", balanced, dict(n=5, b=1, opts=["max"], cuts=[[0, -1, 0, 0, 0], [-1, -1, -1, 0, -1]]),
     dict(cover=["max"], cost=4)),
    ("only_6_2", only, dict(n=6, b=2, epochs=1, cuts=[[0, 0, -1, 0, 0, 0], [-1, -1, -1, 0, -1, -1]]), dict(cover=["default", "source", "target"], cost=8)),
    ("only_3_domains", only, dict(n=3, b=1, dom=(-2, 1)), dict(cover=["default", "source", "target"], cost=3)),
    ("only_4_1", only, dict(n=4, b=1), dict(cover=["default", "source", "target"], cost=3)),
    ("only_4_2", only, dict(n=4, b=2), dict(cover=["default", "source", "target"], cost=3)),
    ("only_4_3", only, dict(n=4, b=3), dict(cover=["default", "source", "target"], cost=3)),
    ("loader_3_1", loader, dict(n=3, b=1, weights=True, dom=(-2, 2)), dict(cover=["balanced", "source", "target"], cost=4)),
    ("loader_4_2", loader, dict(n=4, b=2), dict(cover=["balanced", "source", "target"], cost=6)),
    ("loader_4_2_weights", loader, dict(n=4, b=2, weights=True), dict(cover=["balanced", "source", "target"], cost=6)),
    ("loader_4_1", loader, dict(n=4, b=1), dict(cover=["balanced", "source", "target"], tier="thorough")),
]
