"""Differential test of the array engine: every operation is evaluated on z3
variables constrained to random numbers and compared with numpy."""
import os

import numpy as np

from . import npfun, stubs
from .env import SymEnv
from .explore import Explorer

OPS = {
    "add": lambda a, b, i, j, m: a + b, "sub": lambda a, b, i, j, m: a - i, "mul": lambda a, b, i, j, m: a * b,
    "div": lambda a, b, i, j, m: a / (b * b + 1), "idiv": lambda a, b, i, j, m: i // (j * j + 1),
    "mod": lambda a, b, i, j, m: i % (j * j + 1), "neg": lambda a, b, i, j, m: -a, "abs": lambda a, b, i, j, m: abs(i),
    "pow": lambda a, b, i, j, m: a ** 2 + i ** 2, "lt": lambda a, b, i, j, m: a < b, "eq": lambda a, b, i, j, m: i == j,
    "and": lambda a, b, i, j, m: m & (i > 0), "or": lambda a, b, i, j, m: m | (i > 0), "inv": lambda a, b, i, j, m: ~m,
    "negint": lambda a, b, i, j, m: -i, "max": lambda a, b, i, j, m: np.maximum(a, b), "min": lambda a, b, i, j, m: np.minimum(i, j),
    "where": lambda a, b, i, j, m: np.where(m, a, b), "where1": lambda a, b, i, j, m: np.where(m)[0],
    "mask": lambda a, b, i, j, m: a[m[:, 0]], "maskint": lambda a, b, i, j, m: i[i > 0],
    "fancy": lambda a, b, i, j, m: a[np.abs(i[:, 0]) % 3], "sum": lambda a, b, i, j, m: a.sum(),
    "sum0": lambda a, b, i, j, m: a.sum(0), "sumb": lambda a, b, i, j, m: m.sum(1), "mean": lambda a, b, i, j, m: a.mean(1),
    "meani": lambda a, b, i, j, m: i.mean(0), "var": lambda a, b, i, j, m: a.var(0), "std": lambda a, b, i, j, m: a.std(),
    "any": lambda a, b, i, j, m: m.any(0), "all": lambda a, b, i, j, m: np.all(m, axis=1),
    "argmax": lambda a, b, i, j, m: a.argmax(1), "argmin": lambda a, b, i, j, m: np.argmin(i, axis=0),
    "amax": lambda a, b, i, j, m: a.max(), "ptp": lambda a, b, i, j, m: a.max(0) - a.min(0),
    "sort": lambda a, b, i, j, m: np.sort(i, axis=0), "argsort": lambda a, b, i, j, m: np.argsort(i[:, 0], kind="stable"),
    "unique": lambda a, b, i, j, m: np.unique(i), "uniq_inv": lambda a, b, i, j, m: np.unique(i.ravel(), return_inverse=True)[1],
    "uniq_cnt": lambda a, b, i, j, m: np.unique(i, return_counts=True)[1], "isin": lambda a, b, i, j, m: np.isin(i, [1, 2]),
    "setdiff": lambda a, b, i, j, m: np.setdiff1d(i, j), "inter": lambda a, b, i, j, m: np.intersect1d(i, j),
    "concat": lambda a, b, i, j, m: np.concatenate([a, i]), "stack": lambda a, b, i, j, m: np.stack([a, b], axis=1),
    "vstack": lambda a, b, i, j, m: np.vstack([i, j]), "hstack": lambda a, b, i, j, m: np.hstack([a, m]),
    "colstack": lambda a, b, i, j, m: np.column_stack([a[:, 0], i[:, 1]]), "matmul": lambda a, b, i, j, m: a @ b.T,
    "dot": lambda a, b, i, j, m: np.dot(a.T, b), "outer": lambda a, b, i, j, m: np.outer(a[0], b[1]),
    "cumsum": lambda a, b, i, j, m: np.cumsum(a, axis=0), "diff": lambda a, b, i, j, m: np.diff(a[:, 0]),
    "bincount": lambda a, b, i, j, m: np.bincount(np.abs(i.ravel())), "clip": lambda a, b, i, j, m: np.clip(a, -1, 1),
    "roundi": lambda a, b, i, j, m: np.floor(a), "ceil": lambda a, b, i, j, m: np.ceil(a), "astype": lambda a, b, i, j, m: a.astype(int),
    "astypeb": lambda a, b, i, j, m: i.astype(bool), "astypef": lambda a, b, i, j, m: i.astype(float) / 2,
    "reshape": lambda a, b, i, j, m: a.reshape(2, 3), "ravelT": lambda a, b, i, j, m: a.T.ravel(),
    "newaxis": lambda a, b, i, j, m: a[:, None, :] - b[None, :, :], "diag": lambda a, b, i, j, m: np.diag(a[:, 0]),
    "eye": lambda a, b, i, j, m: np.eye(3) @ a, "tile": lambda a, b, i, j, m: np.tile(a[0], 2), "repeat": lambda a, b, i, j, m: np.repeat(i[:, 0], 2),
    "append": lambda a, b, i, j, m: np.append(a, b), "take": lambda a, b, i, j, m: np.take(a, [2, 0], axis=0),
    "flip": lambda a, b, i, j, m: a[::-1], "nan": lambda a, b, i, j, m: np.isnan(np.where(m, np.nan, a)),
    "nansum": lambda a, b, i, j, m: np.nansum(np.where(m, np.nan, a)), "isfinite": lambda a, b, i, j, m: np.isfinite(np.where(m, np.inf, a)),
    "nanmul": lambda a, b, i, j, m: np.where(m, np.nan, a) * 0, "infcmp": lambda a, b, i, j, m: np.where(m, np.inf, a) > 1,
    "norm": lambda a, b, i, j, m: np.linalg.norm(a, axis=1), "trace": lambda a, b, i, j, m: np.trace(a @ b.T),
    "count": lambda a, b, i, j, m: np.count_nonzero(m), "nonzero": lambda a, b, i, j, m: np.nonzero(i)[0],
    "searchsorted": lambda a, b, i, j, m: np.searchsorted(np.sort(i[:, 0]), 1), "einsum": lambda a, b, i, j, m: np.einsum("ij,kj->ik", a, b),
    "setslice": lambda a, b, i, j, m: _set(a, slice(0, 2), 7), "setmask": lambda a, b, i, j, m: _set(a, m, 7.5),
    "setint": lambda a, b, i, j, m: _set(i, m, 2), "settrunc": lambda a, b, i, j, m: _set(i, (slice(None), 0), a[:, 0]),
    "iadd": lambda a, b, i, j, m: _iadd(a, b), "average": lambda a, b, i, j, m: np.average(a, axis=0, weights=[1., 2., 3.]),
    "prod": lambda a, b, i, j, m: np.prod(i, axis=1), "sign": lambda a, b, i, j, m: np.sign(a), "sqrt": lambda a, b, i, j, m: np.sqrt(a * a),
    "allclose": lambda a, b, i, j, m: np.allclose(a, b), "arreq": lambda a, b, i, j, m: np.array_equal(i, i.copy()),
    "zeroslike": lambda a, b, i, j, m: np.zeros_like(i) + a, "fulllike": lambda a, b, i, j, m: np.full_like(i, 2.7),
    "ix": lambda a, b, i, j, m: a[np.ix_([0, 2], [1])], "swap": lambda a, b, i, j, m: np.swapaxes(a, 0, 1),
    "split": lambda a, b, i, j, m: np.split(a, [1])[1], "insert": lambda a, b, i, j, m: np.insert(i[:, 0], 1, 9),
    "cov": lambda a, b, i, j, m: np.cov(a.T), "isclose": lambda a, b, i, j, m: np.isclose(a, b),
    "nanmean": lambda a, b, i, j, m: np.nanmean(np.where(m, np.nan, a), axis=None) if False else np.nanmean(np.where(i > 5, np.nan, a), axis=0),
    "filldiag": lambda a, b, i, j, m: _fd(a[:2]), "isneginf": lambda a, b, i, j, m: np.isneginf(np.where(m, -np.inf, a)),
    "flat": lambda a, b, i, j, m: _flat(a), "softmax": lambda a, b, i, j, m: np.maximum(a, 0),
    "block": lambda a, b, i, j, m: np.block([[a, b], [i, j]]), "block1": lambda a, b, i, j, m: np.block([a, i]),
    "inv2": lambda a, b, i, j, m: np.linalg.inv(a[:2] @ a[:2].T + np.eye(2)), "det": lambda a, b, i, j, m: np.linalg.det(a[:2]),
    "solve": lambda a, b, i, j, m: np.linalg.solve(np.eye(2) * 4 + a[:2], b[:2]),
    "kernlin": lambda a, b, i, j, m: _kern(a, b, "linear"), "kernpoly": lambda a, b, i, j, m: _kern(a, b, "poly", gamma=0.5, degree=2),
    "dist": lambda a, b, i, j, m: _dist(a, b), "knn": lambda a, b, i, j, m: _knn(a, b),
    "empcov": lambda a, b, i, j, m: _cov(a),
    "delete": lambda a, b, i, j, m: np.delete(i[:, 0], np.flatnonzero(m[:, 0])), "compress": lambda a, b, i, j, m: np.compress(m[:, 0], a, axis=0),
    "takealong": lambda a, b, i, j, m: np.take_along_axis(a, np.argsort(a, axis=0), axis=0),
    "putalong": lambda a, b, i, j, m: _ap(a, lambda x: np.put_along_axis(x, np.argmax(a, axis=1)[:, None], 0, axis=1)),
    "putmask": lambda a, b, i, j, m: _ap(a, lambda x: np.putmask(x, m, b)), "place": lambda a, b, i, j, m: _ap(a, lambda x: np.place(x, m, [1., 2.])),
    "addat": lambda a, b, i, j, m: _ap(i, lambda x: np.add.at(x, (i[:, 0] % 3,), 1)), "triu": lambda a, b, i, j, m: np.triu(a[:2]) + np.tril(b[:2], -1),
    "vectorize": lambda a, b, i, j, m: np.vectorize(lambda x: x + 1)(i), "ndenum": lambda a, b, i, j, m: np.array([v for _, v in np.ndenumerate(i)]),
    "median": lambda a, b, i, j, m: np.median(a[:, 0]), "lexsort": lambda a, b, i, j, m: np.lexsort((i[:, 0], i[:, 1])),
    "flatnz": lambda a, b, i, j, m: np.flatnonzero(i), "select": lambda a, b, i, j, m: np.select([m, i > 0], [a, b], default=0),
    "copyto": lambda a, b, i, j, m: _ap(a, lambda x: np.copyto(x, b, where=m)), "tensordot": lambda a, b, i, j, m: np.tensordot(a, b, axes=([1], [1])),
    "divwhere": lambda a, b, i, j, m: np.divide(a, b, out=np.zeros_like(a), where=b > 0), "clipmin": lambda a, b, i, j, m: a.clip(min=0),
    "anykd": lambda a, b, i, j, m: np.where(m.any(axis=1, keepdims=True), a, b), "allkd": lambda a, b, i, j, m: m.all(0, keepdims=True),
    "sumkd": lambda a, b, i, j, m: a / i.sum(axis=1, keepdims=True) if False else a - a.sum(axis=1, keepdims=True),
    "maxkd": lambda a, b, i, j, m: a - a.max(axis=-1, keepdims=True), "argmaxkd": lambda a, b, i, j, m: a.argmax(axis=1, keepdims=True),
    "stdkd": lambda a, b, i, j, m: a.std(axis=0, ddof=1, keepdims=True), "varax": lambda a, b, i, j, m: a.var(axis=(0, 1)),
    "prodkd": lambda a, b, i, j, m: i.prod(axis=0, keepdims=True), "meanwhere": lambda a, b, i, j, m: np.mean(a, where=np.abs(i) >= 0),
    "sumwhere": lambda a, b, i, j, m: np.sum(a, axis=0, where=m), "anywhere": lambda a, b, i, j, m: np.any(i > 1, axis=1, where=m),
    "allwhere": lambda a, b, i, j, m: np.all(i > 1, where=m), "maxinit": lambda a, b, i, j, m: np.max(a, axis=0, initial=0.5, where=m),
    "suminit": lambda a, b, i, j, m: np.sum(a, initial=2.0), "sumout": lambda a, b, i, j, m: _out(a, lambda x: np.sum(x, axis=1, out=x[:, 0])),
    "cumout": lambda a, b, i, j, m: _out(a, lambda x: np.cumsum(x, axis=0, out=x)), "tracek": lambda a, b, i, j, m: np.trace(a, offset=1),
    "round1": lambda a, b, i, j, m: np.round(a * 0.25, 1), "sortflat": lambda a, b, i, j, m: np.sort(i, axis=None), "argsortd": lambda a, b, i, j, m: (-i[:, 0]).argsort(kind="stable"),
    "avgkd": lambda a, b, i, j, m: np.average(a, axis=1, weights=np.abs(b) + 1, keepdims=True), "clipout": lambda a, b, i, j, m: _out(a, lambda x: x.clip(-1, 1, out=x)),
    "ufout": lambda a, b, i, j, m: _out(a, lambda x: np.add(x, b, out=x)), "ufwhere": lambda a, b, i, j, m: _out(a, lambda x: np.add(x, b, out=x, where=m)),
    "minred": lambda a, b, i, j, m: np.minimum.reduce(a, axis=1), "addred": lambda a, b, i, j, m: np.add.reduce(a, axis=0, keepdims=True),
    "accum": lambda a, b, i, j, m: np.maximum.accumulate(a, axis=0), "outeruf": lambda a, b, i, j, m: np.subtract.outer(a[:, 0], b[0]),
    "diffax": lambda a, b, i, j, m: np.diff(a, axis=0, n=2), "rollax": lambda a, b, i, j, m: np.roll(a, 1, axis=0), "expand": lambda a, b, i, j, m: np.expand_dims(a, 1) * b,
    "uniqax": lambda a, b, i, j, m: np.unique(i, axis=0), "digit": lambda a, b, i, j, m: np.digitize(i, [-1, 0, 2]), "cumprod": lambda a, b, i, j, m: np.cumprod(i[:, 0]),
    "argpart": lambda a, b, i, j, m: np.sort(i[np.argpartition(i[:, 0], 1)[:2], 0]), "part": lambda a, b, i, j, m: np.partition(i[:, 0], 1)[1],
    "quant": lambda a, b, i, j, m: np.quantile(a[:, 0], 0.5), "perc": lambda a, b, i, j, m: np.percentile(a[:, 0], 25), "argwhere": lambda a, b, i, j, m: np.argwhere(m),
    "logical": lambda a, b, i, j, m: np.logical_xor(m, i > 0), "heav": lambda a, b, i, j, m: np.heaviside(a, 0.5), "mod": lambda a, b, i, j, m: i % 3, "fdiv": lambda a, b, i, j, m: i // 2,
    "choose": lambda a, b, i, j, m: np.choose(np.abs(i) % 2, [a, b]), "rot": lambda a, b, i, j, m: np.fliplr(a) + np.flipud(b), "minmax": lambda a, b, i, j, m: np.ptp(a, axis=0),
    "boolarith": lambda a, b, i, j, m: m * a + (1 - m) * b, "cmpchain": lambda a, b, i, j, m: ((i >= -1) & (i <= 1)).sum(),
}


def _kern(a, b, m, **k):
    import sklearn.metrics.pairwise as pw
    return pw.pairwise_kernels(a, b, metric=m, **k)


def _dist(a, b):
    import sklearn.metrics.pairwise as pw
    return pw.pairwise_distances(a, b, metric="sqeuclidean")


def _knn(a, b):
    from sklearn.neighbors import KNeighborsClassifier
    return KNeighborsClassifier(1).fit(a, np.array([4, 2, 7])).predict(b)


def _cov(a):
    import sklearn.covariance as c
    return c.empirical_covariance(a)


def _out(x, f):
    x = x.copy()
    r = f(x)
    return np.concatenate([x.ravel(), np.asarray(r).ravel() if not hasattr(r, "ravel") else r.ravel()])


def _ap(x, f):
    x = x.copy()
    f(x)
    return x


def _fd(a):
    a = a.copy()
    np.fill_diagonal(a, -np.diag(a))
    return a


def _flat(a):
    a = a.copy()
    a.flat[::3] += 1
    return a


def _set(x, k, v):
    x = x.copy()
    x[k] = v
    return x


def _iadd(a, b):
    a = a.copy()
    a += b
    a[1] *= 2
    return a


def main():
    npfun.install()
    stubs.install()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rng = np.random.RandomState(seed)
    bad = n = 0
    for name, op in OPS.items():
        for _ in range(2):
            a = np.round(rng.uniform(-3, 3, (3, 2)), 2)
            b = np.round(rng.uniform(-3, 3, (3, 2)), 2)
            i, j = rng.randint(-2, 3, (3, 2)), rng.randint(-2, 3, (3, 2))
            m = rng.rand(3, 2) < 0.5
            want = op(a, b, i, j, m)

            def run(path):
                env = SymEnv(path, {})
                sa, sb = env.reals("a", (3, 2)), env.reals("b", (3, 2))
                si, sj = env.ints("i", (3, 2), -9, 9), env.ints("j", (3, 2), -9, 9)
                sm = env.bools("m", (3, 2))
                for s, c in ((sa, a), (sb, b), (si, i), (sj, j), (sm, m)):
                    for k in np.ndindex(c.shape):
                        v = c[k].item()
                        env.assume(s[k] == v)
                got = op(sa, sb, si, sj, sm)
                if hasattr(want, "dtype") and hasattr(got, "dtype") and np.ndim(want):
                    env.check(np.dtype(got.dtype) == want.dtype, f"dtype {got.dtype} != {want.dtype}")
                env.check_eq(got, want, "value")

            ex = Explorer(run, time_budget=60, exact_sqrt=True)
            ex.explore()
            n += 1
            if ex.cex or ex.limits or ex.inconclusive or not ex.stats["checked_paths"]:
                bad += 1
                print("SELFTEST", name, [c["msg"] for c in ex.cex], [(l["exc"], l["where"][-1:]) for l in ex.limits][:1],
                      ex.inconclusive[:1])
    print(f"selftest: {n} comparisons, {bad} bad")
    return 1 if bad else 0
