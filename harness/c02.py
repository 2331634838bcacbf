"""C02 merging is the exact inverse of splitting; missing halves are masked."""
import warnings

import numpy as np

from skada.utils import source_target_merge, source_target_split

warnings.filterwarnings("ignore")
ASSUMPTIONS = ["sklearn check_array / type_of_target are modelled by their documented contract"]


def round_trip(env):
    n = env.p["n"]
    d = env.ints("d", n, -2, 2)
    X = env.reals("X", (n, 2))
    y = env.ints("y", n, -1, 3) if env.p["y"] == "int" else env.reals("y", n)
    src = [bool(v >= 0) for v in d]
    env.assume(any(src) and not all(src)) if env.p.get("both", True) else None
    parts = source_target_split(X, y, sample_domain=d)
    snaps = [env.snapshot(p) for p in parts]
    X2, y2, d2 = source_target_merge(*parts, sample_domain=d)
    env.cover("merged")
    env.check_eq(X2, X, "merge(split(X)) == X")
    env.check_eq(y2, y, "merge(split(y)) == y")
    env.check_eq(d2, d, "sample_domain returned unchanged")
    env.check(X2.dtype == X.dtype and y2.dtype == y.dtype, "dtype preserved by the round trip")
    for p, s in zip(parts, snaps):
        env.check_eq(p, s, "merge does not modify its inputs")


def placed(env):
    """independent source/target arrays land on the rows of their own domain"""
    n = env.p["n"]
    d = env.ints("d", n, -2, 2)
    src = [i for i in range(n) if d[i] >= 0]
    tgt = [i for i in range(n) if i not in src]
    env.assume(len(src) > 0 and len(tgt) > 0)
    A = env.ints("A", len(src), -5, 5) if env.p["a"] == "int" else env.reals("A", len(src))
    B = env.ints("B", len(tgt), -5, 5) if env.p["b"] == "int" else env.reals("B", len(tgt))
    out, _ = source_target_merge(A, B, sample_domain=d)
    env.cover("merged")
    env.check(len(out) == n, "one output row per sample")
    for k, i in enumerate(src):
        env.check_eq(out[i], A[k], "source value at its row")
    for k, i in enumerate(tgt):
        env.check_eq(out[i], B[k], "target value at its row")


def masked(env):
    """a missing half is filled with the label mask of the other half's kind"""
    n = env.p["n"]
    d = env.ints("d", n, -2, 2)
    src = [i for i in range(n) if d[i] >= 0]
    tgt = [i for i in range(n) if i not in src]
    env.assume(len(src) > 0 and len(tgt) > 0)
    have = src if env.p["missing"] == "target" else tgt
    lost = tgt if env.p["missing"] == "target" else src
    if env.p["y"] == "int":
        A = env.ints("A", len(have), 0, 3)
        mask = -1
    else:
        A = env.reals("A", len(have), 0, 50)
        env.assume(A[0] * 2 != np.rint(A[0] * 2))   # genuinely continuous
        mask = float("nan")
    empty = None if env.p["how"] == "none" else np.array([])
    pair = (A, empty) if env.p["missing"] == "target" else (empty, A)
    out, d2 = source_target_merge(*pair, sample_domain=d)
    env.cover("merged")
    env.check(len(out) == n, "one output row per sample")
    for k, i in enumerate(have):
        env.check_eq(out[i], A[k], "given value at its row")
    for i in lost:
        env.check_eq(out[i], mask, "missing value replaced by the mask")
    env.check_eq(d2, d, "sample_domain unchanged")


def bad_counts(env):
    """arrays that do not match the domain labels are rejected"""
    n = env.p["n"]
    d = env.ints("d", n, -2, 2)
    ns = sum(1 for v in d if v >= 0)
    a = env.pick("a", range(1, n + 2))
    b = env.pick("b", range(1, n + 2))
    A, B = env.reals("A", a), env.reals("B", b)
    env.cover("reached")
    if a == ns and b == n - ns:
        out, _ = source_target_merge(A, B, sample_domain=d)
        env.check(len(out) == n, "matching counts accepted")
    else:
        env.raises(lambda: source_target_merge(A, B, sample_domain=d), ValueError, "wrong counts rejected")


def inferred(env):
    """without domain labels: sources first, then targets"""
    a, b = env.pick("a", range(1, 4)), env.pick("b", range(1, 4))
    A, B = env.reals("A", (a, 2)), env.reals("B", (b, 2))
    ya, yb = env.ints("ya", a, 0, 3), env.ints("yb", b, -1, 3)
    X, y, d = source_target_merge(A, B, ya, yb)
    env.cover("reached")
    env.check_rows(X, [A[i] for i in range(a)] + [B[i] for i in range(b)], "X")
    env.check_rows(y, [ya[i] for i in range(a)] + [yb[i] for i in range(b)], "y")
    for i in range(a + b):
        env.check((d[i] >= 0) == (i < a), "inferred label sign")


INSTANCES = [
    ("round_trip_int", round_trip, dict(n=5, y="int"), dict(cover=["merged"], bounds="5 rows, labels [-2,2]")),
    ("round_trip_real", round_trip, dict(n=5, y="real"), dict(cover=["merged"])),
    ("placed_rr", placed, dict(n=5, a="real", b="real"), dict(cover=["merged"])),
    ("placed_ii", placed, dict(n=4, a="int", b="int"), dict(cover=["merged"])),
    ("placed_ir", placed, dict(n=4, a="int", b="real"), dict(cover=["merged"])),
    ("placed_ri", placed, dict(n=4, a="real", b="int"), dict(cover=["merged"])),
    ("bad_counts", bad_counts, dict(n=3), dict(cover=["reached"])),
    ("inferred", inferred, {}, dict(cover=["reached"])),
    ("round_trip_n8", round_trip, dict(n=8, y="int"), dict(tier="thorough", cost=5)),
    ("placed_n8", placed, dict(n=8, a="real", b="real"), dict(tier="thorough", cost=5)),
] + [(f"masked_{m}_{y}_{h}", masked, dict(n=4, missing=m, y=y, how=h), dict(cover=["merged"]))
     for m in ("source", "target") for y in ("int", "real") for h in ("none", "empty")]
