"""C12 leave-one-domain-out packing and its use with the splitter."""
import numpy as np

from harness import common as C
from harness.c11 import _build, _is_mask
from skada import make_da_pipeline
from skada.model_selection import LeaveOneDomainOut

ASSUMPTIONS = ["the random generator is replaced by one whose permutations/choices are arbitrary",
               "numpy arrays; torch tensors are covered by C25"]


def lodo_pack(env):
    dt, D = env.p["dt"], env.p["domains"]
    sizes = [env.pick(f"n{k}", [1, 2, 3]) for k in range(D)]
    ds, data = _build(env, dt, sizes)
    snaps = [env.snapshot(y) for _, y in data]
    X, y, d = ds.pack_lodo()
    env.cover("packed")
    rows = [(k, i, s) for s in (1, -1) for k in range(D) for i in range(sizes[k])]
    env.check(X.shape[0] == len(rows), "every domain twice")
    for j, (k, i, s) in enumerate(rows):
        env.check_eq(X[j], data[k][0][i], "rows of the domain")
        env.check_eq(d[j], s * (k + 1), "once as source, once as target")
        if s > 0:
            env.check_eq(y[j], data[k][1][i], "source copy keeps its labels")
        else:
            env.check(_is_mask(y[j], dt), "target copy is masked")
    for (_, y0), y1 in zip(data, snaps):
        env.check_eq(y0, y1, "stored labels untouched")
    b = ds.pack_lodo(return_type="Bunch")
    for k, v in (("X", X), ("y", y), ("sample_domain", d)):
        env.check(hasattr(b, k), "return_type is honoured")
        env.check_eq(b[k], v, "Bunch holds the same arrays")


def lodo_fit(env):
    """training on a leave-one-domain-out split never sees a label of the left-out domain"""
    sizes = env.p["sizes"]
    ds, data = _build(env, "int64", sizes)
    X, y, d = ds.pack_lodo()
    cv = LeaveOneDomainOut(max_n_splits=10, test_size=env.p["test"], random_state=C.NDRng(env))
    seen = []
    for tr, te in cv.split(X, y, d):
        env.cover("split")
        out = {-int(d[i]) for i in np.concatenate([tr, te]) if d[i] < 0}
        env.check(len(out) == 1, "one domain left out")
        t = out.pop()
        seen.append(t)
        C.reset()
        make_da_pipeline(C.RecPredictor()).fit(X[tr], y[tr], sample_domain=d[tr])
        r, = C.fits("p")
        others = [(k, i) for k in range(len(sizes)) if k != t - 1 for i in range(sizes[k])]
        pos = {(k, i): j for j, (k, i) in enumerate((k, i) for k in range(len(sizes)) for i in range(sizes[k]))}
        want = [j for j in tr if d[j] > 0]
        env.check(all(int(j) in {pos[o] for o in others} for j in want), "source rows come from the other domains")
        env.check_rows(r["X"], [X[j] for j in want], "fitted on the source part of the split")
        env.check_rows(r["y"], [y[j] for j in want], "with their labels")
    env.check(sorted(seen) == list(range(1, len(sizes) + 1)), "each domain left out once")


INSTANCES = [(f"lodo_{dt}", lodo_pack, dict(dt=dt, domains=D), dict(cover=["packed"]))
             for dt, D in (("int64", 2), ("float64", 2), ("uint8", 2), ("int64", 3))] + [
    ("lodo_fit2", lodo_fit, dict(sizes=[2, 2], test=1), dict(cover=["split"], cost=2)),
    ("lodo_init", lodo_pack, dict(dt="int64", domains=2, how="init"), dict(cover=["packed"])),
    ("lodo_merge", lodo_pack, dict(dt="int64", domains=3, how="merge"), dict(cover=["packed"])),
    ("lodo_fit23", lodo_fit, dict(sizes=[3, 2], test=1), dict(cover=["split"], tier="thorough", cost=5)),
    ("lodo_fit222", lodo_fit, dict(sizes=[2, 2, 2], test=1), dict(cover=["split"], tier="thorough", cost=9, max_paths=30000)),
]
