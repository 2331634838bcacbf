"""C03 input validation: domain restrictions are honoured exactly, missing
domain labels are derived from the label masks."""
import numpy as np

from skada.utils import check_X_domain, check_X_y_domain

ASSUMPTIONS = ["sklearn check_array / type_of_target are modelled by their documented contract"]


def _or(xs):
    r = False
    for x in xs:
        r = r | x
    return r


def _multi(vals, keep):
    """two different labels among those kept (no forking)"""
    r = False
    for i in range(len(vals)):
        for j in range(i):
            r = r | (keep(vals[i]) & keep(vals[j]) & (vals[i] != vals[j]))
    return r


def flags(env):
    n = env.p["n"]
    lo, hi = env.p.get("range", (-2, 2))
    d = env.ints("d", n, lo, hi)
    X = env.reals("X", (n, 2))
    names = ["allow_source", "allow_target", "allow_multi_source", "allow_multi_target",
             "allow_common_domain_idx"]
    fl = {k: env.bool(k) for k in names}
    if env.p["fn"] == "X":
        def call():
            return check_X_domain(X, d, **fl)
    else:
        y = env.ints("y", n, -1, 2)

        def call():
            return check_X_y_domain(X, y, d, **fl)
    ds = [d[i] for i in range(n)]
    is_s, is_t = (lambda v: v >= 0), (lambda v: v < 0)
    common = _or([(ds[i] == -ds[j]) & (ds[i] != ds[j]) for i in range(n) for j in range(i)])
    no = lambda k: fl[k] == False  # noqa: E712
    want = ((no("allow_source") & _or([is_s(v) for v in ds]))
            | (no("allow_target") & _or([is_t(v) for v in ds]))
            | (no("allow_multi_source") & _multi(ds, is_s))
            | (no("allow_multi_target") & _multi(ds, is_t))
            | (no("allow_common_domain_idx") & common))
    try:
        out = call()
    except ValueError:
        env.cover("rejected")
        env.check(want, "accepted inputs must not be rejected")
        return
    env.cover("accepted")
    env.check(want == False, "forbidden domain structure must be rejected")  # noqa: E712
    env.check_eq(out[0], X, "X returned unchanged")
    env.check_eq(out[-1], d, "domain labels returned unchanged")


def allow_domains(env):
    n = 3
    d = env.ints("d", n, -2, 2)
    X = env.reals("X", (n, 1))
    allowed = env.pick("allowed", [{1}, {-1}, {1, -1}, {np.inf}, {-np.inf}, {np.inf, -2}, {2, -np.inf}, set()])
    bad = False
    for i in range(n):
        v = d[i]
        ok = False
        for a in allowed:
            if a == np.inf:
                ok = ok | (v >= 0)
            elif a == -np.inf:
                ok = ok | (v < 0)
            else:
                ok = ok | (v == a)
        bad = bad | (ok == False)  # noqa: E712
    try:
        check_X_domain(X, d, allow_domains=allowed)
    except ValueError:
        env.cover("rejected")
        env.check(bad, "allowed domains must not be rejected")
        return
    env.cover("accepted")
    env.check(bad == False, "a domain outside the allowed set must be rejected")  # noqa: E712


def auto_y(env):
    """no domain labels: masked rows are targets, the others sources"""
    n = env.p["n"]
    X = env.reals("X", (n, 2))
    if env.p["y"] == "int":
        y = env.ints("y", n, -2, 2)
        masked = [y[i] == -1 for i in range(n)]
        invalid = _or([y[i] < -1 for i in range(n)]) | (_or(masked) == False)  # noqa: E712
    else:
        y = env.reals("y", n, 0, 50, nan=True)
        masked = [np.isnan(y[i]) for i in range(n)]
        env.assume(_or([(y[i] * 2 != np.rint(y[i] * 2)) & (masked[i] == False) for i in range(n)]))  # noqa: E712
        invalid = _or(masked) == False  # noqa: E712
    snap = env.snapshot(y)
    try:
        _, y2, d = check_X_y_domain(X, y, None)
    except ValueError:
        env.cover("rejected")
        env.check(invalid, "a maskable label vector must be accepted")
        return
    env.cover("accepted")
    env.check(invalid == False, "labels without a usable mask must be rejected")  # noqa: E712
    env.check(len(d) == n, "one domain label per sample")
    for i in range(n):
        env.check((d[i] < 0) == masked[i], "target iff the label is masked")
    env.check_eq(y2, snap, "labels returned unchanged")
    env.check_eq(y, snap, "labels not modified in place")
    env.raises(lambda: check_X_y_domain(X, y, None, allow_auto_sample_domain=False), ValueError,
               "automatic domains can be forbidden")


def auto_X(env):
    n = env.pick("n", [1, 2, 3])
    X = env.reals("X", (n, 2))
    _, d = check_X_domain(X, None)
    env.check(len(d) == n, "one domain label per sample")
    for i in range(n):
        env.check(d[i] < 0, "without labels everything is target data")
    env.raises(lambda: check_X_domain(X, None, allow_auto_sample_domain=False), ValueError,
               "automatic domains can be forbidden")
    s = env.int("s", -3, 3)
    _, d = check_X_domain(X, int(s))
    env.check(len(d) == n, "scalar label is broadcast")
    for i in range(n):
        env.check(d[i] == s, "scalar label is broadcast")
    env.cover("reached")


def lengths(env):
    n = 3
    m = env.pick("m", [1, 2, 4])
    X = env.reals("X", (n, 1))
    d = env.ints("d", m, -2, 2)
    y = env.ints("y", n, -1, 2)
    env.raises(lambda: check_X_domain(X, d), ValueError, "X/sample_domain length mismatch")
    env.raises(lambda: check_X_y_domain(X, y, d), ValueError, "X/sample_domain length mismatch with labels")
    y2 = env.ints("z", m, -1, 2)
    d3 = env.ints("e", n, -2, 2)
    env.raises(lambda: check_X_y_domain(X, y2, d3), ValueError, "X/y length mismatch")
    env.cover("reached")


def nan_labels(env):
    """allow_label_masks=False rejects NaN labels, NaN features always are"""
    n = 3
    X = env.reals("X", (n, 1), nan=env.p["xnan"])
    y = env.reals("y", n, 0, 9, nan=True)
    d = env.ints("d", n, -2, 2)
    allow = env.bool("allow")
    xn, yn = np.any(np.isnan(X)), np.any(np.isnan(y))
    try:
        check_X_y_domain(X, y, d, allow_label_masks=allow)
    except ValueError:
        env.check(xn | (yn & (allow == False)), "valid input must be accepted")  # noqa: E712
        env.cover("rejected")
        return
    env.cover("accepted")
    env.check((xn | (yn & (allow == False))) == False, "NaN must be rejected")  # noqa: E712


_c = dict(cover=["accepted", "rejected"])
INSTANCES = [
    ("flags_X_n2", flags, dict(n=2, fn="X"), dict(cost=4, **_c)),
    ("flags_Xy_n2", flags, dict(n=2, fn="Xy"), dict(cost=5, **_c)),
    ("flags_X_n3", flags, dict(n=3, fn="X", range=(-2, 1)), dict(cost=8, **_c)),
    ("flags_Xy_n3", flags, dict(n=3, fn="Xy", range=(-2, 1)), dict(cost=9, **_c)),
    ("flags_X_n4", flags, dict(n=4, fn="X"), dict(cost=9, tier="thorough")),
    ("allow_domains", allow_domains, {}, dict(cost=3, **_c)),
    ("auto_y_int", auto_y, dict(n=4, y="int"), _c),
    ("auto_y_real", auto_y, dict(n=3, y="real"), _c),
    ("auto_X", auto_X, {}, dict(cover=["reached"])),
    ("lengths", lengths, {}, dict(cover=["reached"])),
    ("nan_y", nan_labels, dict(xnan=False), _c),
    ("nan_Xy", nan_labels, dict(xnan=True), _c),
]
