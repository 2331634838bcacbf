"""C10 leave-one-domain-out splits."""
import numpy as np

from harness import common as C
from harness.c09 import _sizes, _valid_split
from skada.model_selection import LeaveOneDomainOut

ASSUMPTIONS = ["the random generator is replaced by one whose permutations/choices are arbitrary",
               "domain labels are non zero, as produced by the dataset packing"]


def lodo(env):
    n, D = env.p["n"], env.p["domains"]
    if "patterns" in env.p:
        d = env.array(env.pick("pattern", env.p["patterns"]), np.int64)
    else:
        d = env.ints("d", n, -D, D)
        env.assume(np.all(d != 0))
    ds = [int(v) for v in d]
    X = env.reals("X", (n, 1))
    mx = env.pick("max_n_splits", env.p.get("max", [1, 10]))
    test, train = env.pick("sizes", env.p["sizes"])
    doms = sorted({v for v in ds if v > 0})
    cv = LeaveOneDomainOut(max_n_splits=mx, test_size=test, train_size=train, random_state=C.NDRng(env))
    env.check(cv.get_n_splits(X, None, d) == min(mx, len(doms)), "one split per domain, up to the maximum")
    it = cv.split(X, None, d)
    seen, k = [], 0
    while True:
        try:
            tr, te = next(it)
        except StopIteration:
            break
        except ValueError:
            env.cover("rejected")
            # some domain that may be left out cannot be split
            def bad(t):
                s = [i for i in range(n) if ds[i] > 0 and ds[i] != t]
                g = [i for i in range(n) if ds[i] == -t]
                for m in (len(s), len(g)):
                    a, b = _sizes(m, test, train) if m else (0, 0)
                    if m == 0 or a <= 0 or a + b > m:
                        return True
                return False
            env.check(any(bad(t) for t in doms if t not in seen), "only impossible sizes are rejected")
            return
        k += 1
        tr, te = _valid_split(env, n, tr, te)
        tgts = {ds[i] for i in tr + te if ds[i] < 0}
        env.check(len(tgts) == 1, "exactly one domain is the target")
        if len(tgts) != 1:
            return
        t = -tgts.pop()
        env.check(t in doms and t not in seen, "a domain is left out once")
        seen.append(t)
        env.check(t not in {ds[i] for i in tr + te}, "the left-out domain is never a source")
        s = [i for i in range(n) if ds[i] > 0 and ds[i] != t]
        g = [i for i in range(n) if ds[i] == -t]
        for side in (s, g):
            a, b = _sizes(len(side), test, train)
            env.check(len([i for i in tr if i in side]) == a, "train share of the side")
            env.check(len([i for i in te if i in side]) == b, "test share of the side")
        env.check(len(tr) == sum(_sizes(len(x), test, train)[0] for x in (s, g)), "nothing else in train")
        env.check(len(te) == sum(_sizes(len(x), test, train)[1] for x in (s, g)), "nothing else in test")
    env.cover("split")
    env.check(k == min(mx, len(doms)), "one split per domain, up to the maximum")


P = [(1, -1, 2, -2, 1, -1, 2, -2), (2, 2, -1, 1, -2, -1, -2, 1)]
P3 = [(1, -1, 2, -2, 3, -3, -1, -2, -3), (3, -3, -3, 1, -1, 2, -2, -1, -2)]
INSTANCES = [
    ("lodo_n4", lodo, dict(n=4, domains=2, sizes=[(1, 1), (0.5, None)]), dict(cover=["rejected", "split"], cost=3)),
    ("lodo_2dom", lodo, dict(n=8, domains=2, sizes=[(0.5, None), (1, 1)], patterns=P), dict(cover=["split"], cost=3)),
    ("lodo_3dom", lodo, dict(n=9, domains=3, sizes=[(0.5, None)], patterns=P3, max=[2]), dict(cover=["split"], cost=3)),
    ("lodo_n6", lodo, dict(n=6, domains=2, sizes=[(0.5, None)], max=[10]), dict(cover=["split"], tier="thorough", cost=9, max_paths=60000)),
    ("lodo_3dom_all", lodo, dict(n=9, domains=3, sizes=[(0.5, None)], patterns=P3, max=[1, 3]), dict(cover=["split"], tier="thorough", cost=9, max_paths=60000)),
]
