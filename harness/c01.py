"""C01 splitting by domain is an order-preserving partition of aligned rows."""
import numpy as np

from skada import per_domain_split, source_target_split
from skada.utils import extract_domains_indices, extract_source_indices

ASSUMPTIONS = ["sklearn.utils.check_array is modelled by its documented contract",
               "array contents are opaque: equality of moved rows is term identity"]


def _inputs(env, n):
    d = env.ints("d", n, -3, 3, dtype=env.p.get("ddtype", np.int64))
    X = env.reals("X", (n, 2))
    y = env.reals("y", n, nan=True)
    w = env.ints("w", n, -5, 5)
    return d, X, y, w


def split(env):
    n = env.p["n"]
    d, X, y, w = _inputs(env, n)
    snap = [env.snapshot(a) for a in (X, y, w, d)]
    out = source_target_split(X, y, None, w, sample_domain=d)
    src = [i for i in range(n) if d[i] >= 0]
    tgt = [i for i in range(n) if not d[i] >= 0]
    if src and tgt:
        env.cover("both sides")
    env.check(len(out) == 8, "two parts per array")
    for k, a in ((0, X), (2, y), (6, w)):
        env.check_rows(out[k], [a[i] for i in src], f"source part of array {k // 2}")
        env.check_rows(out[k + 1], [a[i] for i in tgt], f"target part of array {k // 2}")
        env.check(out[k].dtype == a.dtype and out[k + 1].dtype == a.dtype, "dtype kept")
    env.check(out[4] is None and out[5] is None, "None stays None")
    for a, s in zip((X, y, w, d), snap):
        env.check_eq(a, s, "inputs not modified")


def per_domain(env):
    n = env.p["n"]
    d, X, y, w = _inputs(env, n)
    s, t = per_domain_split(X, y, None, w, sample_domain=d)
    ds = [int(v) for v in d]
    for name, dic, keep in (("source", s, lambda v: v >= 0), ("target", t, lambda v: v < 0)):
        want = sorted({v for v in ds if keep(v)})
        env.check_list([int(k) for k in dic], want, f"{name} domain labels")
        for k, parts in dic.items():
            rows = [i for i in range(n) if ds[i] == int(k)]
            env.check(len(parts) == 4 and parts[2] is None, "one part per array")
            env.check_rows(parts[0], [X[i] for i in rows], f"{name} X")
            env.check_rows(parts[1], [y[i] for i in rows], f"{name} y")
            env.check_rows(parts[3], [w[i] for i in rows], f"{name} w")
    if s and t:
        env.cover("both sides")


def indices(env):
    n = env.p["n"]
    d = env.ints("d", n, -3, 3)
    src = extract_source_indices(d)
    for i in range(n):
        env.check_eq(src[i], d[i] >= 0, "source flag iff label non-negative")
    dom = extract_domains_indices(d)
    s, t = extract_domains_indices(d, split_source_target=True)
    ds = [int(v) for v in d]
    env.check_list([int(k) for k in dom], sorted(set(ds)), "domain labels")
    allidx = []
    for k, idx in dom.items():
        env.check_list([int(i) for i in idx], [i for i in range(n) if ds[i] == int(k)], "rows of a domain")
        allidx += [int(i) for i in idx]
    env.check_list(sorted(allidx), list(range(n)), "partition of all rows")
    env.check_list(sorted(int(k) for k in s) , sorted({v for v in ds if v >= 0}), "source labels")
    env.check_list(sorted(int(k) for k in t), sorted({v for v in ds if v < 0}), "target labels")
    for part in (s, t):
        for k, idx in part.items():
            env.check_list([int(i) for i in idx], [i for i in range(n) if ds[i] == int(k)], "rows")
    env.cover("reached")


def bad_length(env):
    """arrays of different lengths are rejected"""
    n = env.p["n"]
    d = env.ints("d", n, -2, 2)
    X = env.reals("X", (n, 1))
    y = env.reals("y", n + env.p["extra"])
    env.raises(lambda: source_target_split(X, y, sample_domain=d), (ValueError, IndexError), "inconsistent lengths rejected")
    env.raises(lambda: per_domain_split(X, y, sample_domain=d), (ValueError, IndexError), "inconsistent lengths rejected")
    env.raises(lambda: source_target_split(sample_domain=d), ValueError, "at least one array")


INSTANCES = [
    ("split_n6", split, dict(n=6), dict(cover=["both sides"], bounds="6 rows, any int labels in [-3,3]")),
    ("split_float_n4", split, dict(n=4, ddtype=np.float64), dict(cover=["both sides"])),
    ("per_domain_n3", per_domain, dict(n=3), dict(cover=["both sides"])),
    ("indices_n4", indices, dict(n=4), dict(cover=["reached"], cost=5)),
    ("bad_length", bad_length, dict(n=3, extra=1), {}),
    ("bad_length2", bad_length, dict(n=3, extra=-1), {}),
    ("split_n9", split, dict(n=9), dict(tier="thorough", cost=10)),
    ("per_domain_n4", per_domain, dict(n=4), dict(tier="thorough", cost=10)),
]
