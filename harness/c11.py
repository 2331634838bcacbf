"""C11 packing several domains into arrays."""
import numpy as np

from harness import common as C
from skada.datasets import DomainAwareDataset, select_domain

ASSUMPTIONS = ["numpy arrays; torch tensors are covered by C25"]


def _labels(env, name, n, dt):
    k = np.dtype(dt).kind
    if k == "f":
        return env.reals(name, n, 0, 50, dtype=dt)
    if k == "b":
        return env.bools(name, n)
    return env.ints(name, n, 0, 5, dtype=dt)


def _is_mask(v, dt):
    return np.isnan(v) if np.dtype(dt).kind == "f" else v == -1


def _build(env, dt, sizes, unlabelled=()):
    data = []
    for k, n in enumerate(sizes):
        data.append((env.reals(f"X{k}", (n, 1)), None if k in unlabelled else _labels(env, f"y{k}", n, dt)))
    ds = DomainAwareDataset()
    how = env.p.get("how", "add")
    if how == "init":
        ds = DomainAwareDataset([(X,) if y is None else (X, y, f"d{k}") for k, (X, y) in enumerate(data)])
    elif how == "merge":
        other = DomainAwareDataset()
        for k, (X, y) in enumerate(data[1:], 1):
            other.add_domain(X, y, f"e{k}")
        ds.add_domain(data[0][0], data[0][1], "d0")
        ds.merge(other, names_mapping={f"e{k}": f"d{k}" for k in range(1, len(data))})
    else:
        for k, (X, y) in enumerate(data):
            ds.add_domain(X, y, f"d{k}")
    return ds, data


def pack(env):
    dt, D = env.p["dt"], env.p["domains"]
    sizes = [env.pick(f"n{k}", [1, 2]) for k in range(D)]
    unl = env.p.get("unlabelled", ())
    ds, data = _build(env, dt, sizes, unl)
    role = [env.pick(f"role{k}", ["source", "target", "both", "unused"]) for k in range(D)]
    srcs = [k for k in range(D) if role[k] in ("source", "both")]
    tgts = [k for k in range(D) if role[k] in ("target", "both")]
    if env.p.get("order"):
        srcs = [srcs[i] for i in env.perm("so", len(srcs))]
        tgts = [tgts[i] for i in env.perm("to", len(tgts))]
    env.assume(len(srcs) + len(tgts) > 0)
    labelled_used = [k for k in srcs + tgts if k not in unl]
    mask_it = env.pick("mask_target_labels", [True, False])
    custom = env.p.get("custom")
    snaps = [(env.snapshot(X), env.snapshot(y)) for X, y in data]
    kw = dict(mask=custom) if custom is not None else {}
    names = lambda ks: [f"d{k}" for k in ks]
    X, y, d = ds.pack(names(srcs), names(tgts), mask_target_labels=mask_it, **kw)
    env.cover("packed")
    rows = [(k, i, 1) for k in srcs for i in range(sizes[k])] + [(k, i, -1) for k in tgts for i in range(sizes[k])]
    env.check(X.shape[0] == y.shape[0] == d.shape[0] == len(rows), "one row per sample of the requested domains")
    for j, (k, i, s) in enumerate(rows):
        env.check_eq(X[j], data[k][0][i], "sources first, then targets, rows in order")
        env.check_eq(d[j], s * (k + 1), "label of the domain: positive as source, negative as target")
        if data[k][1] is None:
            if custom is None or s > 0 or not mask_it:
                dt2 = dt if labelled_used else np.int64
                env.check(_is_mask(y[j], dt2), "unlabelled samples carry the mask")
        elif s < 0 and mask_it:
            env.cover("masked")
            if custom is None:
                env.check(_is_mask(y[j], dt), "target labels are masked")
            else:
                env.check_eq(y[j], custom, "target labels are replaced by the given mask")
        else:
            env.check_eq(y[j], data[k][1][i], "labels kept")
    for (X0, y0), (X1, y1) in zip(data, snaps):
        env.check_eq(X0, X1, "stored features untouched")
        if y0 is not None:
            env.check_eq(y0, y1, "stored labels untouched")
    b = ds.pack(names(srcs), names(tgts), mask_target_labels=mask_it, return_type="Bunch", **kw)
    for u, v, nm in ((b.X, X, "X"), (b.y, y, "y"), (b.sample_domain, d, "domains")):
        env.check_eq(u, v, f"Bunch holds the same {nm}")
    want = {f"d{k}": k + 1 for k in srcs}
    want.update({f"d{k}": -(k + 1) for k in tgts})
    env.check(dict(b.domain_names) == want, "names map to the labels in use")
    for k in srcs + tgts:
        m = select_domain(b.domain_names, d, f"d{k}")
        for j in range(len(rows)):
            env.check_eq(m[j], d[j] == want[f"d{k}"], "select_domain selects exactly that domain's rows")


def names(env):
    """every added domain stays reachable under its own name"""
    n = env.p["n"]
    ds = DomainAwareDataset()
    given = []
    for k in range(n):
        nm = env.pick(f"name{k}", [None, "_1", "_2", "a"])
        X = env.reals(f"X{k}", (1, 1))
        if nm is not None and nm in ds.domain_names_:
            env.cover("duplicate")
            env.raises(lambda: ds.add_domain(X, None, nm), (AssertionError, ValueError), "duplicate names are rejected")
            return
        before = dict(ds.domain_names_)
        ds.add_domain(X, env.array([k]), nm)
        new = [a for a in ds.domain_names_ if a not in before]
        env.check(len(new) == 1 and all(ds.domain_names_[a] == v for a, v in before.items()), "one new name, others kept")
        given.append((new[0] if new else nm, X))
    env.cover("all added")
    env.check(len(set(ds.domain_names_.values())) == n, "distinct domain labels")
    for k, (nm, X) in enumerate(given):
        got = ds.get_domain(nm)
        env.check_eq(got[0], X, "domain reachable by its name")
    X, y, d = ds.pack([a for a, _ in given], [], mask_target_labels=False)
    for k, (nm, X0) in enumerate(given):
        env.check_eq(X[k], X0[0], "packed in order")
        env.check_eq(d[k], k + 1, "label = position of addition")


_c = dict(cover=["packed"])
_m = dict(cover=["packed", "masked"])
INSTANCES = [(f"pack_{dt}", pack, dict(dt=dt, domains=2), dict(_m))
             for dt in ("int64", "int32", "int8", "uint8", "bool", "float64", "float32")] + [
    ("pack_order", pack, dict(dt="int64", domains=3, order=True), dict(_m, cost=4)),
    ("pack_custom_int", pack, dict(dt="int64", domains=2, custom=-7), dict(_m)),
    ("pack_custom_float", pack, dict(dt="float64", domains=2, custom=-7.5), dict(_m)),
    ("unlabelled_int", pack, dict(dt="int64", domains=2, unlabelled=(1,)), dict(_c)),
    ("unlabelled_float", pack, dict(dt="float64", domains=2, unlabelled=(1,)), dict(_c)),
    ("unlabelled_first", pack, dict(dt="float64", domains=2, unlabelled=(0,)), dict(_c)),
    ("init", pack, dict(dt="int64", domains=2, how="init"), dict(_m)),
    ("merge", pack, dict(dt="int64", domains=2, how="merge"), dict(_m)),
    ("merge_unlabelled", pack, dict(dt="int64", domains=2, how="merge", unlabelled=(1,)), dict(_c)),
    ("names", names, dict(n=3), dict(cover=["duplicate", "all added"])),
    ("pack_order_f", pack, dict(dt="float64", domains=3, order=True), dict(_m, tier="thorough", cost=4)),
    ("names4", names, dict(n=4), dict(cover=["duplicate", "all added"], tier="thorough", cost=4)),
]
