"""C09 domain-aware shuffle splits."""
import math

import numpy as np

from harness import common as C
from skada.model_selection import DomainShuffleSplit, SourceTargetShuffleSplit, StratifiedDomainShuffleSplit

ASSUMPTIONS = ["the random generator is replaced by one whose permutations/choices are arbitrary"]


def _sizes(n, test, train):
    """documented sizes: floats are fractions, ints are counts, default test 0.1"""
    if test is None and train is None:
        test = 0.1
    nt = None if test is None else (math.ceil(test * n) if isinstance(test, float) else test)
    nr = None if train is None else (math.floor(train * n) if isinstance(train, float) else train)
    if nt is None:
        nt = n - nr
    if nr is None:
        nr = n - nt
    return nr, nt


def _valid_split(env, n, tr, te):
    tr, te = [int(i) for i in tr], [int(i) for i in te]
    env.check(len(set(tr)) == len(tr) and len(set(te)) == len(te), "no row twice in one part")
    env.check(not set(tr) & set(te), "train and test are disjoint")
    env.check(all(0 <= i < n for i in tr + te), "indices are rows of X")
    return tr, te


def source_target(env):
    n, ns = env.p["n"], env.p["splits"]
    d = env.ints("d", n, -2, 1)
    src, tgt = C.sign_split(d)
    X = env.reals("X", (n, 1))
    test, train = env.pick("sizes", env.p["sizes"])
    cv = SourceTargetShuffleSplit(n_splits=ns, test_size=test, train_size=train, random_state=C.NDRng(env))
    ok = True
    for side in (src, tgt):
        if not side:
            ok = False
            continue
        a, b = _sizes(len(side), test, train)
        ok = ok and a > 0 and a + b <= len(side)
    if not ok:
        env.cover("impossible")
        env.raises(lambda: list(cv.split(X, None, d)), ValueError, "impossible sizes are rejected")
        return
    got = list(cv.split(X, None, d))
    env.check(len(got) == ns == cv.get_n_splits(X, None, d), "as many splits as asked")
    env.cover("split")
    for tr, te in got:
        tr, te = _valid_split(env, n, tr, te)
        for side in (src, tgt):
            a, b = _sizes(len(side), test, train)
            env.check(len([i for i in tr if i in side]) == a, "train share of the side")
            env.check(len([i for i in te if i in side]) == b, "test share of the side")


def domain(env):
    n, ns = env.p["n"], env.p["splits"]
    if "patterns" in env.p:
        d = env.array(env.pick("pattern", env.p["patterns"]), np.int64)
    else:
        d = env.ints("d", n, *env.p.get("range", (-2, 1)))
    src, tgt = C.sign_split(d)
    X = env.reals("X", (n, 1))
    us = env.pick("us", env.p["us"])
    test, train = env.pick("sizes", env.p["sizes"])
    ds = [int(v) for v in d]
    quota = {k: int(ds.count(k) * us) for k in set(ds)}
    a_s = sum(v for k, v in quota.items() if k >= 0)
    a_t = sum(v for k, v in quota.items() if k < 0)
    cv = DomainShuffleSplit(n_splits=ns, test_size=test, train_size=train, under_sampling=us, random_state=C.NDRng(env))
    ok = True
    for m in (a_s, a_t):
        if m == 0:
            ok = False
            continue
        a, b = _sizes(m, test, train)
        ok = ok and a > 0 and a + b <= m
    if not ok:
        env.raises(lambda: list(cv.split(X, None, d)), ValueError, "impossible sizes are rejected")
        return
    got = list(cv.split(X, None, d))
    env.check(len(got) == ns == cv.get_n_splits(X, None, d), "as many splits as asked")
    env.cover("split")
    for tr, te in got:
        tr, te = _valid_split(env, n, tr, te)
        for side, m in ((src, a_s), (tgt, a_t)):
            a, b = _sizes(m, test, train)
            env.check(len([i for i in tr if i in side]) == a, "train share of the side")
            env.check(len([i for i in te if i in side]) == b, "test share of the side")
        for k in quota:
            got_k = len([i for i in tr + te if ds[i] == k])
            env.check(got_k <= quota[k], "under-sampled per domain")
            if test is None or train is None:
                env.check(got_k == quota[k], "the domain keeps exactly its under-sampled share")


class Rotations(C.NDRng):
    """permutations restricted to rotations (larger sizes); other draws stay arbitrary"""

    def _perm(self, m):
        k = self.env.pick(self._name(), [0, 1] if 1 < m <= 3 else [0])
        return [(i + k) % m for i in range(m)]


def stratified(env):
    n, ns = env.p["n"], env.p["splits"]
    if "groups" in env.p:
        q = env.pick("groups", env.p["groups"])
        rows = [k for k, c in enumerate(q) for _ in range(c)]
        rows = rows[::2] + rows[1::2]
        n = len(rows)
        d = env.array([(1, 1, -2, 3)[k] for k in rows], np.int64)
        y = env.array([(0, 1, 1, 0)[k] for k in rows], np.int64)
    else:
        d = env.ints("d", n, -1, 1)
        env.assume(np.all(d != 0))
        y = env.ints("y", n, 0, 1)
    X = env.reals("X", (n, 1))
    test, train = env.pick("sizes", env.p["sizes"])
    g = [(int(y[i]), int(d[i])) for i in range(n)]
    groups = sorted(set(g))
    cnt = {k: g.count(k) for k in groups}
    cv = StratifiedDomainShuffleSplit(n_splits=ns, test_size=test, train_size=train,
                                      random_state=(Rotations if "groups" in env.p else C.NDRng)(env))
    n_tr, n_te = _sizes(n, test, train)
    if n_tr + n_te > n or min(cnt.values()) < 2 or n_tr < len(groups) or n_te < len(groups):
        env.cover("rejected")
        env.raises(lambda: list(cv.split(X, y, d)), ValueError, "groups that cannot be stratified are rejected")
        return
    got = list(cv.split(X, y, d))
    env.check(len(got) == ns == cv.get_n_splits(X, y, d), "as many splits as asked")
    env.cover("split")
    for tr, te in got:
        tr, te = _valid_split(env, n, tr, te)
        env.check(len(tr) == n_tr and len(te) == n_te, "sizes")
        for k in groups:
            a = len([i for i in tr if g[i] == k])
            b = len([i for i in te if g[i] == k])
            env.check(abs(a - cnt[k] * n_tr / n) < 1 - 1e-9, "each domain/label group keeps its share of train")
            rest = n - n_tr
            env.check(abs(b - (cnt[k] - a) * n_te / rest) < 1 - 1e-9, "each domain/label group keeps its share of test")


def bad_us(env):
    u = env.real("u", -3, 3)
    env.cover("reached")
    if u < 0 or u > 1:
        env.raises(lambda: DomainShuffleSplit(under_sampling=u), ValueError, "under_sampling out of range")
    else:
        DomainShuffleSplit(under_sampling=u)
        env.check(True, "accepted")


S = [(None, None), (0.5, None), (1, 1), (1, None), (0.25, 0.5), (None, 0.6)]
INSTANCES = [
    ("source_target_n4", source_target, dict(n=4, splits=1, sizes=S), dict(cover=["split", "impossible"], cost=3)),
    ("source_target_2splits", source_target, dict(n=4, splits=2, sizes=[(0.5, None)]), dict(cover=["split"], cost=3)),
    ("domain_n4", domain, dict(n=4, splits=1, us=[1.0, 0.8], sizes=[(0.5, None)], range=(-1, 1)), dict(cover=["split"], cost=4, max_paths=20000)),
    ("domain_multi", domain, dict(n=7, splits=1, us=[0.9], sizes=[(0.5, None), (1, 1)], patterns=[(1, -1, 2, -1, 1, -1, 2), (-2, 0, 0, 3, 3, -2, -2)]), dict(cover=["split"], cost=4)),
    ("domain_2splits", domain, dict(n=4, splits=2, us=[1.0], sizes=[(0.5, None)], range=(-1, 0)), dict(cover=["split"], cost=3)),
    ("stratified_n4", stratified, dict(n=4, splits=1, sizes=[(0.5, None), (2, 2), (None, None)]), dict(cover=["split", "rejected"], cost=2)),
    ("stratified_n5", stratified, dict(n=5, splits=1, sizes=[(0.4, None), (2, 3)]), dict(cover=["split"], cost=4, time=45)),
    ("stratified_groups", stratified, dict(n=0, splits=1, groups=[(6, 2), (3, 2, 2), (2, 7, 2), (4, 4, 2, 2)], sizes=[(2, 3), (3, 4), (0.5, 0.4)]), dict(cover=["split"], cost=3)),
    ("bad_us", bad_us, {}, dict(cover=["reached"])),
    ("source_target_n6", source_target, dict(n=6, splits=1, sizes=S), dict(cover=["split"], tier="thorough", cost=9, max_paths=60000)),
    ("domain_n6", domain, dict(n=6, splits=1, us=[0.8], sizes=[(0.5, None), (1, 1)]), dict(cover=["split"], tier="thorough", cost=9, max_paths=60000)),
    ("stratified_n6", stratified, dict(n=6, splits=1, sizes=[(0.5, None), (0.34, None)]), dict(cover=["split"], tier="thorough", cost=9, max_paths=60000)),
]
