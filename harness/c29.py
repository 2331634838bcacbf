"""C29 synthetic dataset generators: announced sizes, labels and relation between source and target, for every draw."""
import types

import numpy as np
import scipy.signal
import scipy.stats

import skada.datasets._samples_generator as G
from engine.rng import GenRng, ast_id
from skada.datasets import (make_dataset_from_moons_distribution, make_shifted_blobs, make_shifted_datasets,
                            make_variable_frequency_dataset)

ASSUMPTIONS = ["uniform and normal draws are arbitrary reals, choice() without replacement an arbitrary start and direction",
               "sin, cos, exp, sqrt and the Gaussian density are uninterpreted functions",
               "scikit-learn's make_blobs and scipy.signal's filters are replaced by arbitrary functions"]


def _pdf(env):
    """scipy's frozen and direct density, through the density function itself"""
    def f(mean=None, cov=1):
        return types.SimpleNamespace(pdf=lambda x: scipy.stats.multivariate_normal.pdf(x, mean, cov))
    f.pdf = lambda x, mean=None, cov=1: scipy.stats.multivariate_normal.pdf(x, mean, cov)
    env.patch(G, "multivariate_normal", f)


def _parts(env, out, msg):
    """(Xs, ys, Xt, yt) of a packed result; checks the domain labels"""
    X, y, d = out
    env.check(len(X) == len(y) == len(d), f"{msg}: as many rows, labels and domain labels")
    lab = [int(v) for v in d]
    ns = lab.count(1)
    env.check(lab == [1] * ns + [-2] * (len(lab) - ns), f"{msg}: source is domain 1, target is domain 2")
    return X[:ns], y[:ns], X[ns:], y[ns:]


def _dataset(env, ds, parts, msg):
    for nm, k in (("s", 0), ("t", 2)):
        X, y = ds.get_domain(nm)
        env.check_eq(X, parts[k], f"{msg}: return_dataset gives the same data")
        env.check_eq(y, parts[k + 1], f"{msg}: return_dataset gives the same labels")


def _noise(env):
    kind = env.pick("noise", ["none", "scalar", "pair"])
    if kind == "none":
        return None, 0.0, 0.0
    a, b = env.real("na", 0, 5), env.real("nb", 0, 5)
    if kind == "scalar":
        a = env.pick("ns", [0, 1.5])
        return a, a, a
    return [a, b], a, b


def _check_noise(env, clean, noisy, rng, skip, a, b):
    """noisy = clean + scale * (the draws made after the clean ones), in row order"""
    z = [v for k, v in rng.log[skip:] if k == "z"]
    zs = [e for v in z for e in v.ravel()]
    for k, s, nm in ((0, a, "source"), (2, b, "target")):
        X, C = noisy[k], clean[k]
        if not (isinstance(s, (int, float)) and s == 0):
            env.check(len(zs) >= X.size, "one normal draw per value")
        for e, c in zip(X.ravel(), C.ravel()):
            env.check_eq(e, c + s * zs.pop(0) if zs else c, f"{nm} noise has the requested scale")
        env.check_eq(noisy[k + 1], clean[k + 1], "noise leaves labels alone")


def blobs(env):
    n, m = env.p["n"], env.p["m"]
    X0 = env.reals("b", (n, m))
    y0 = env.ints("y", n, 0, 2)
    seen = []

    def fake(n_samples=100, n_features=2, *, centers=None, cluster_std=1.0, random_state=None, **kw):
        seen.append((n_samples, n_features, centers, cluster_std, random_state, kw))
        return X0.copy(), y0.copy()
    env.patch(G, "make_blobs", fake)
    shift = env.pick("shiftkind", ["scalar", "vector"])
    shift = env.real("sh", -5, 5) if shift == "scalar" else env.reals("sv", m, -5, 5)
    noise, a, b = _noise(env)
    memo = {}
    rng = GenRng(env, memo)
    kw = dict(n_samples=n, n_features=m, shift=shift, centers="ctr", cluster_std="std")
    p = _parts(env, make_shifted_blobs(noise=noise, random_state=rng, **kw), "blobs")
    env.check(len(p[0]) == n and len(p[2]) == n, "n_samples rows on each side")
    for s in seen:
        env.check(s[:4] == (n, m, "ctr", "std") and s[4] is rng and not s[5], "blobs have the requested parameters and seed")
    _check_noise(env, [X0, y0, X0 + shift, y0], p, rng, 0, a, b)
    env.cover("made")
    ds = make_shifted_blobs(noise=noise, random_state=GenRng(env, memo), return_dataset=True, **{**kw})
    _dataset(env, ds, p, "blobs")


def _shifted(env, memo, same=False, **kw):
    rng = GenRng(env, memo, same)
    return _parts(env, make_shifted_datasets(random_state=rng, **kw), kw["shift"]), rng


def _labels(env, y, X, n, label, msg, mu=None, cov=None, c=27):
    if label == "binary":
        env.check_list([int(v) for v in y], [0] * (4 * n) + [1] * (4 * n), f"{msg}: half the rows of each class")
    elif label == "multiclass":
        env.check_list([int(v) for v in y], [0] * (4 * n) + [k for k in (1, 2, 3, 4) for _ in range(n)], f"{msg}: classes 0 to 4")
    else:
        mu, cov = (np.zeros(2), np.eye(2)) if mu is None else (mu, cov)
        env.check_eq(y, scipy.stats.multivariate_normal.pdf(X, mu, cov) * c, f"{msg}: scaled density at the row")


def _opts(env):
    label = env.p["label"]
    o = dict(label=label)
    if label == "regression" and env.p.get("mu"):
        o.update(mu_regression=np.array([1.0, -1.0]), sigma_regression=np.array([[2.0, 0.5], [0.5, 1.0]]),
                 regression_scaling_constant=env.real("c", 1, 9))
    return o, (o.get("mu_regression"), o.get("sigma_regression"), o.get("regression_scaling_constant", 27))


def shifted(env):
    """every kind of shift against the unshifted draws of the same generator"""
    ns, nt, shift = env.p["ns"], env.p["nt"], env.p["shift"]
    _pdf(env)
    o, reg = _opts(env)
    memo = {}
    mult = dict(covariate_shift=100, target_shift=3, conditional_shift=1)[shift]
    ref, _ = _shifted(env, memo, n_samples_source=ns, n_samples_target=nt * mult, shift="conditional_shift", mean=0, sigma=1, **o)
    env.check(len(ref[0]) == 8 * ns, "8 * n_samples_source source rows")
    _labels(env, ref[1], ref[0], ns, o["label"], "source", *reg)
    _labels(env, ref[3], ref[2], nt * mult, o["label"], "target draws", *reg)
    kw = dict(n_samples_source=ns, n_samples_target=nt, shift=shift, **o)
    if shift == "conditional_shift":
        mean, sigma = env.real("mean", -5, 5), env.real("sigma", -5, 5)
        kw.update(mean=mean, sigma=sigma)
    if shift == "covariate_shift":
        g, c = env.real("gamma", 0, 5), env.reals("ctr", 2, -3, 3)
        kw.update(gamma=g, center_cov_shift=(c[0], c[1]))
    if shift == "target_shift":
        kw["ratio"] = ratio = env.pick("ratio", [0, 0.2, 0.9, 1])
    out, rng = _shifted(env, memo, **kw)
    env.cover("made")
    env.check(len(out[2]) == 8 * nt, "8 * n_samples_target target rows")
    env.check_eq(out[0], ref[0], "the shift leaves the source alone")
    env.check_eq(out[1], ref[1], "the shift leaves the source labels alone")
    if shift == "conditional_shift":
        env.check_eq(out[2], ref[2] * sigma + mean, "target draws scaled and translated")
        env.check_eq(out[3], ref[3], "target labels are those of the draws")
    else:
        ch = [r for k, r in rng.log if k == "choice"]
        rows = _locate(env, out[2], ref[2])
        if env.symbolic or len({_key(x) for x in ref[2]}) == len(ref[2]):
            for j, i in enumerate(rows):
                env.check_eq(out[3][j], ref[3][i], "kept draws keep their label")
        env.check(all(not r["replace"] for r in ch), "drawn without replacement")
        if shift == "target_shift":
            k = int(8 * nt * ratio)
            half = len(ref[2]) // 2
            env.check(sum(1 for i in rows if i < half) == k, "the announced share of target rows comes from the first class")
            env.check(all(r["p"] is None for r in ch), "uniform draws")
        else:
            r, = ch
            want = env.array([np.exp(-g * ((x[0] - c[0]) ** 2 + (x[1] - c[1]) ** 2)) for x in ref[2]])
            env.check(len(r["p"]) == len(want), "one probability per draw")
            for i in (0, 1, 2, 399, 400, 500, 650, 799):
                env.check_eq(r["p"][i], want[i] / np.sum(want), "drawn in proportion to the kernel of the shift")
    noise, a, b = _noise(env) if "noise" in env.p else (None, 0, 0)
    if noise is not None:
        noisy, r2 = _shifted(env, memo, noise=noise, **kw)
        _check_noise(env, out, noisy, r2, len(rng.log), a, b)
    ds = make_shifted_datasets(random_state=GenRng(env, memo), return_dataset=True, **kw)
    _dataset(env, ds, out, shift)


def _locate(env, X, ref):
    """a draw for each row of X, by identity of the drawn values (distinct draws while there are any left)"""
    idx = {}
    for i in range(len(ref)):
        idx.setdefault(_key(ref[i]), []).append(i)
    out = []
    for r in X:
        c = idx.get(_key(r), [])
        env.check(len(c) > 0, "every target row is one of the draws, none is kept twice")
        out.append(c.pop(0) if c else 0)
    return out


def _key(row):
    return tuple(ast_id(v) for v in row)


def subspace(env):
    ns, label = env.p["ns"], env.p["label"]
    _pdf(env)
    o = dict(label=label)
    mu, cov, c = 0, 1, 27
    if label == "regression" and env.p.get("mu"):
        mu, cov, c = 0.5, 2.0, env.real("c", 1, 9)
        o.update(mu_regression=mu, sigma_regression=cov, regression_scaling_constant=c)
    memo = {}
    out, _ = _shifted(env, memo, same=True, n_samples_source=ns, n_samples_target=ns, shift="subspace", **o)
    env.cover("made")
    for k, nm in ((0, "source"), (2, "target")):
        env.check(len(out[k]) == 4 * ns, f"4 * n_samples {nm} rows")
        if label == "binary":
            env.check_list([int(v) for v in out[k + 1]], [0] * (2 * ns) + [1] * (2 * ns), f"{nm}: half the rows of each class")
        elif label == "multiclass":
            env.check(all(0 <= int(v) <= 4 for v in out[k + 1]), f"{nm}: classes 0 to 4")
        else:
            x = (out[0][:, 0] + out[0][:, 1]) / 2
            env.check_eq(out[k + 1], scipy.stats.multivariate_normal.pdf(x, mu, cov) * c, f"{nm}: scaled density of the projection")
    env.check_eq(out[2], -out[0], "with the same draws the target is the mirrored source")
    env.check_eq(out[3], out[1], "with the same draws the labels are equal")


def standard(env):
    ns, nt = 1, 1
    memo = {}
    kw = dict(n_samples_source=ns, n_samples_target=nt, shift=env.p["shift"])
    raw, _ = _shifted(env, memo, same=env.p["shift"] == "subspace", **kw)
    out, _ = _shifted(env, memo, same=env.p["shift"] == "subspace", standardize=True, **kw)
    env.cover("made")
    X = np.concatenate([raw[0], raw[2]])
    m, s = X.mean(axis=0), X.std(axis=0)
    env.check_eq(out[0], (raw[0] - m) / s, "standard score over both domains")
    env.check_eq(out[2], (raw[2] - m) / s, "standard score over both domains")
    env.check_eq(out[1], raw[1], "labels untouched")
    env.check_eq(out[3], raw[3], "labels untouched")


def rejected(env):
    memo = {}
    kw = {env.pick("which", ["shift", "label"]): "nope"}
    env.cover("made")
    env.raises(lambda: make_shifted_datasets(2, 2, random_state=GenRng(env, memo), **kw), ValueError, "unknown options are rejected")
    if "label" in kw:
        env.raises(lambda: make_shifted_datasets(2, 2, shift="subspace", random_state=GenRng(env, memo), **kw), ValueError,
                   "unknown options are rejected")


def _on_moon(c, pos, k):
    """is c the point of moon k at (about) the given share of its length"""
    t = np.linspace(max(0, pos - 0.011), min(1, pos + 0.011), 201) * np.pi
    x, y = (np.cos(t), np.sin(t)) if k == 0 else (1 - np.cos(t), 0.5 - np.sin(t))
    return float(np.min((x - c[0]) ** 2 + (y - c[1]) ** 2)) < 1e-6


def moons(env):
    ns, nt = env.p["ns"], env.p["nt"]
    many = env.pick("many", [0, 1, 2, 3])
    ps, pt = env.pick("pos", [(0, 1.0), (0.1, 0.25), (1.0, 0.5), (0.999, 0), (0.5, 0.1)])
    src = [ps, 0.7] if many & 1 else [ps]
    tgt = [pt, 0.3] if many & 2 else [pt]
    kw = dict(n_samples_source=ns, n_samples_target=nt, pos_source=src if many & 1 else ps, pos_target=tgt if many & 2 else pt)
    noise, a, b = _noise(env)
    rng = GenRng(env)
    X, y, d = make_dataset_from_moons_distribution(random_state=rng, noise=noise, **kw)
    env.cover("made")
    names = (["s0", "s1"] if many & 1 else ["s"]) + (["t0", "t1"] if many & 2 else ["t"])
    k0 = 0
    draws = [v for k, v in rng.log if k in ("mvn", "z")]
    ds = make_dataset_from_moons_distribution(random_state=GenRng(env, rng.memo), noise=noise, return_dataset=True, **kw)
    mv = [v for k, v in rng.log if k == "mvn"]
    zs = {}
    for j, (nm, pos) in enumerate(zip(names, src + tgt)):
        n, s, scale = (ns, 1, a) if nm[0] == "s" else (nt, -1, b)
        env.check_list([int(v) for v in d[k0:k0 + 2 * n]], [s * (j + 1)] * (2 * n), "domains in the order of their positions")
        env.check_list([int(v) for v in y[k0:k0 + 2 * n]], [0] * n + [1] * n, "n samples of each moon")
        base = []
        for k in (0, 1):
            mean, cov, z = mv[2 * j + k]
            env.check(_on_moon(mean, pos, k), "cluster centre at the announced position of its moon")
            env.check(len(z) == n, "n samples around the centre")
            base += [mean + z[i] for i in range(n)]
        nz = [v for k, v in _after(rng.log, j)]
        for i in range(2 * n):
            e = base[i]
            if nz:
                e = e + scale * nz[0][i]
            env.check_eq(X[k0 + i], e, "samples of the cluster, plus noise of the requested scale")
        env.check(bool(nz) == (noise is not None), "noise only on request")
        Xd, yd = ds.get_domain(nm)
        env.check_eq(Xd, X[k0:k0 + 2 * n], "return_dataset gives the same data")
        env.check_eq(yd, y[k0:k0 + 2 * n], "return_dataset gives the same labels")
        k0 += 2 * n
    env.check(len(X) == k0, "nothing else")


def _after(log, j):
    """plain normal draws after the second cluster of domain j and before the next one"""
    out, c = [], 0
    i = 0
    while i < len(log):
        if log[i][0] == "z" and i + 1 < len(log) and log[i + 1][0] == "mvn":
            c += 1
            i += 2
            continue
        if log[i][0] == "z" and c == 2 * (j + 1):
            out.append(log[i])
        i += 1
    return out


def freq(env):
    ns, nt, C, F, K = (env.p[k] for k in ("ns", "nt", "C", "F", "K"))
    env.patch(scipy.signal, "butter", lambda N, Wn, btype="low", **k: (N, Wn, btype, k))
    calls = []

    def sosfilt(sos, x, axis=-1, **k):
        calls.append(sos)
        return x + sos[1][0]
    env.patch(scipy.signal, "sosfilt", sosfilt)
    env.patch(G, "rfft", lambda x, *a, **k: x)
    env.patch(G, "irfft", lambda x, *a, **k: x)
    delta, band = env.real("delta", -3, 3), env.real("band", 0, 2)
    sig = env.real("sig", 0, 1)
    noise, a, b = (None, 0.0, 0.0)
    rng = GenRng(env, few=True)
    kw = dict(n_samples_source=ns, n_samples_target=nt, n_channels=C, n_frequencies=F, n_classes=K, delta_f=delta, band_size=band, sigma_freq=sig)
    out = _parts(env, make_variable_frequency_dataset(random_state=rng, **kw), "signals")
    env.cover("made")
    fr = next(r["out"] for k, r in rng.log if k == "choice")
    env.check(all(not r["replace"] for k, r in rng.log if k == "choice"), "distinct frequencies")
    log = [(k, v) for k, v in rng.log if k != "choice"]
    pos = 0
    nc = 0
    for k, n, dl in ((0, ns, 0.0), (2, nt, delta)):
        X, y = out[k], out[k + 1]
        env.check(tuple(X.shape) == (K * n, C, 3000), "n samples per class of n_channels signals of 3000 points")
        env.check_list([int(v) for v in y], [c for c in range(K) for _ in range(n)], "labels are the classes")
        for c in range(K):
            want = {}
            for f in range(F):
                u, x = log[pos][1], log[pos + 1][1]
                pos += 2
                for i in range(n):
                    z = log[pos][1]
                    pos += 1
                    f0 = fr[c * F + f] + dl + sig * band * z + 1e-5
                    f0 = -f0 if f0 < 0 else f0
                    sos = calls[nc]
                    nc += 1
                    env.check_eq(sos[1][0], f0, "band of the class, shifted by delta_f in the target")
                    env.check_eq(sos[1][1], f0 + band, "band of the requested size")
                    env.check(sos[2] == "bandpass" and sos[3].get("fs") == 100, "bandpass at 100 Hz")
                    for j in range(C):
                        for t in (0, 1, 2, 2999):
                            want[i, j, t] = want.get((i, j, t), 0.0) + (0.5 + 0.5 * u[j]) * (x[i, j, t] + f0)
            for (i, j, t), v in want.items():
                env.check_eq(X[c * n + i, j, t], v, "each channel is the band's signals scaled by the channel's weight")


def _sh(shift, label, tier=None, **kw):
    o = dict(cover=["made"], cost=3)
    if tier:
        o["tier"] = tier
    p = {**dict(ns=1, nt=1, shift=shift, label=label), **kw}
    return (f"{shift}_{label}" + "".join(f"_{k}{v}" for k, v in kw.items()), shifted, p, o)


INSTANCES = [
    ("blobs2", blobs, dict(n=3, m=2), dict(cover=["made"])),
    ("blobs1", blobs, dict(n=4, m=1), dict(cover=["made"])),
    _sh("conditional_shift", "binary", noise=1), _sh("conditional_shift", "multiclass", ns=2), _sh("conditional_shift", "regression"),
    _sh("conditional_shift", "regression", mu=1),
    _sh("target_shift", "binary", noise=1), _sh("target_shift", "multiclass"), _sh("target_shift", "regression"), _sh("target_shift", "binary", nt=2),
    _sh("covariate_shift", "binary"), _sh("covariate_shift", "regression", "thorough"), _sh("covariate_shift", "multiclass", "thorough"),
    ("subspace_binary", subspace, dict(ns=2, label="binary"), dict(cover=["made"])),
    ("subspace_multiclass", subspace, dict(ns=3, label="multiclass"), dict(cover=["made"])),
    ("subspace_regression", subspace, dict(ns=1, label="regression"), dict(cover=["made"])),
    ("subspace_regression_mu", subspace, dict(ns=1, label="regression", mu=1), dict(cover=["made"])),
    ("standard_conditional", standard, dict(shift="conditional_shift"), dict(cover=["made"])),
    ("standard_subspace", standard, dict(shift="subspace"), dict(cover=["made"])),
    ("rejected", rejected, dict(), dict(cover=["made"])),
    ("moons", moons, dict(ns=1, nt=2), dict(cover=["made"], cost=4)),
    ("freq", freq, dict(ns=1, nt=1, C=2, F=1, K=2), dict(cover=["made"], cost=3)),
    ("freq2", freq, dict(ns=1, nt=2, C=1, F=2, K=1), dict(cover=["made"], cost=3)),
]
