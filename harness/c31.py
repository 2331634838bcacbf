"""C31 adapters fitted by gradient descent minimise their stated objective."""
import warnings

import numpy as np
import torch

import skada._mapping as mapping
import skada._subspace as subspace
import skada.utils as utils
from harness.c13 import _data
from skada import MMDLSConSMappingAdapter, TransferSubspaceLearningAdapter

TORCH = True
ASSUMPTIONS = ["exp is an uninterpreted positive function", "the optimiser (LBFGS) and the QR factorisation are replaced by "
               "arbitrary answers; the Cholesky factor is any positive number whose square is the given one (one component)"]


def _rows(X, idx=None):
    return [[X[i, j] for j in range(X.shape[1])] for i in (range(X.shape[0]) if idx is None else idx)]


def _dist2(env, a, b):
    r = torch.cdist(env.tensor(env.array([list(a)])), env.tensor(env.array([list(b)]))) ** 2
    return env.arr(r)[0, 0]


def _dist(env, a, b):
    return env.arr(torch.cdist(env.tensor(env.array([list(a)])), env.tensor(env.array([list(b)]))))[0, 0]


class Minimise:
    """stands for the optimiser: keeps the objective, answers anything"""

    def __init__(self, env, module, evaluate=True):
        self.env, self.calls, self.evaluate = env, [], evaluate

        def torch_minimize(loss, x0, **k):
            many = type(x0) in (list, tuple)
            xs = list(x0) if many else [x0]
            sol = [env.reals(f"sol{len(self.calls)}_{i}", tuple(x.shape), -3, 3) for i, x in enumerate(xs)]
            at = [env.reals(f"at{len(self.calls)}_{i}", tuple(x.shape), -3, 3) for i, x in enumerate(xs)]
            value = env.arr(loss(*[env.tensor(a) for a in at])) if self.evaluate else None
            self.calls.append((loss, xs, k, sol, at, value))
            return (sol if many else sol[0]), 0.0
        env.patch(module, "torch_minimize", torch_minimize)


# ---------------------------------------------------------------- TSL

class Qr:
    """stands for the QR factorisation: a basis of its own for every argument"""

    def __init__(self, env, shape):
        self.env, self.seen = env, []
        self.answers = [env.reals(f"Q{i}", shape, -3, 3) for i in range(2)]

        def answer(W):
            self.seen.append(env.arr(W))
            return self.answers[min(len(self.seen), 2) - 1]
        env.patch(np.linalg, "qr", lambda W, *a, **k: (answer(W), None))
        env.patch(torch.linalg, "qr", lambda W, *a, **k: (env.tensor(answer(W)), None))


def _cov(rows, reg):
    n, p = len(rows), len(rows[0])
    m = [sum(r[j] for r in rows) / n for j in range(p)]
    c = [[sum((r[a] - m[a]) * (r[b] - m[b]) for r in rows) / n for b in range(p)] for a in range(p)]
    t = sum(c[a][a] for a in range(p))
    return [[(1 - reg) * c[a][b] + (reg * t if a == b else 0) for b in range(p)] for a in range(p)]


def _tr(Q, M):
    """trace of Q' M Q"""
    p = len(M)
    return sum(Q[a, k] * M[a][b] * Q[b, k] for k in range(Q.shape[1]) for a in range(p) for b in range(p))


def _base(env, method, Q, S, ys, reg, ls):
    if method == "pca":
        return -_tr(Q, _cov(S, reg)), 1
    if method == "flda":
        means = []
        for i in range(len(S)):
            same = [S[k] for k in range(len(S)) if ys[k] == ys[i]]
            means.append([sum(r[j] for r in same) / len(same) for j in range(2)])
        within = [[a - b for a, b in zip(r, m)] for r, m in zip(S, means)]
        return _tr(Q, _cov(within, reg)), _tr(Q, _cov(means, reg))
    tot = 0
    for i in range(len(S)):
        for j in range(len(S)):
            if i != j and ys[i] == ys[j]:
                e = np.exp(-(_dist2(env, S[i], S[j]) / ls))
                z = [sum(Q[a, k] * (S[i][a] - S[j][a]) for a in range(2)) for k in range(Q.shape[1])]
                tot = tot + e * sum(v * v for v in z)
    return tot, 1


def tsl_base(env):
    """the term of the base method, evaluated on the orthonormalised basis"""
    method, n, nc = env.p["method"], env.p["n"], env.p["nc"]
    reg = env.pick("reg", [None, 0.25])
    ls = env.pick("length_scale", [2, 0.5]) if method == "lpp" else 2
    r = 0 if reg is None else reg
    y = env.ints("y", n, 0, 1)
    env.patch(TransferSubspaceLearningAdapter, "_D", lambda self, *a, **k: 0.0)
    if "cuts" in env.p:
        cut = env.pick("cut", env.p["cuts"])
        d, X = env.array(cut), env.reals("X", (n, 2), -3, 3)
        src, tgt = [i for i in range(n) if cut[i] >= 0], [i for i in range(n) if cut[i] < 0]
    else:
        X, d, src, tgt = _data(env, width=2, box=3)
    ys = [int(y[i]) for i in src]
    S = _rows(X, src)
    qr = Qr(env, (2, nc))
    if method == "flda":
        env.assume(len(set(ys)) == 2)
        env.assume(_base(env, method, qr.answers[0], S, ys, r, ls)[1] > 0)
    opt = Minimise(env, subspace)
    ad = TransferSubspaceLearningAdapter(n_components=nc, base_method=method, reg=reg, length_scale=ls)
    X0, y0 = env.snapshot(X), env.snapshot(y)
    ad.fit(X, y, sample_domain=d)
    env.check_eq(X, X0, "input untouched")
    env.check_eq(y, y0, "labels untouched")
    env.check(len(opt.calls) == 1, "one minimisation")
    func, x0, k, sol, at, got = opt.calls[0]
    env.cover("fitted")
    env.check(tuple(x0[0].shape) == (2, nc), "as many columns as components")
    env.check(k.get("tol") == ad.tol and k.get("max_iter") == ad.max_iter, "tolerance and number of iterations passed on")
    env.check(len(qr.seen) == 2, "the basis is orthonormalised once per evaluation")
    env.check_eq(qr.seen[0], at[0], "the basis given is the one orthonormalised")
    num, den = _base(env, method, qr.answers[0], S, ys, r, ls)
    env.check_eq(got * den if method == "flda" else got, num, "objective of the base method", tol=1e-5)


def tsl_fit(env):
    """the basis kept is the orthonormalised solution; constructor checks"""
    n = env.p["n"]
    y = env.ints("y", n, 0, 1)
    nc = env.pick("nc", [None, 1, 2])
    tol, it, verbose = env.pick("opt", [(0.01, 100, False), (0.5, 3, True)])
    X, d, src, tgt = _data(env, width=2, box=3)
    c = nc or min(n, 2)
    opt, qr = Minimise(env, subspace, evaluate=False), Qr(env, (2, c))
    ad = TransferSubspaceLearningAdapter(n_components=nc, base_method="pca", tol=tol, max_iter=it, verbose=verbose)
    ad.fit(X, y, sample_domain=d)
    func, x0, k, sol, at, got = opt.calls[0]
    env.cover("fitted")
    env.check_eq(env.arr(x0[0].detach()), np.eye(2)[:, :c], "starts from the first axes")
    env.check(k.get("tol") == tol and k.get("max_iter") == it and bool(k.get("verbose")) == verbose, "options passed on")
    env.check(len(qr.seen) == 1, "one factorisation")
    env.check_eq(qr.seen[0], sol[0], "the solution is orthonormalised")
    env.check_eq(env.arr(ad.W_), qr.answers[0], "and kept as the basis")
    Z, e, s2, t2 = _data(env, 1, "2", width=2, box=3, need_t=False)
    out = ad.transform(Z, sample_domain=e, allow_source=True)
    env.check_rows(out, [z @ qr.answers[0] for z in Z], "every row is projected by the basis")
    env.raises(lambda: TransferSubspaceLearningAdapter(base_method="other"), ValueError, "unknown method refused")
    env.raises(lambda: TransferSubspaceLearningAdapter(reg=1.5), ValueError, "shrinkage above one refused")


def tsl_divergence(env):
    """mu times the kernel discrepancy between the embedded source and target rows is added"""
    cut, method = env.p["cut"], env.p["method"]
    n = len(cut)
    y = env.ints("y", n, 0, 0) if method == "pca" else env.ints("y", n, 0, 1)
    mu = env.pick("mu", [0.1, 2.0])
    reg = env.pick("reg", [None, 0.25])
    d = env.array(cut)
    src, tgt = [i for i in range(n) if cut[i] >= 0], [i for i in range(n) if cut[i] < 0]
    X = env.reals("X", (n, 2), -3, 3)
    qr = Qr(env, (2, 1))
    Q = qr.answers[0]
    opt = Minimise(env, subspace)
    factors = [env.real(f"L{i}", 0.001, 1000) for i in range(3)]
    chols = []

    def cholesky(M, *a, **k):
        m = env.arr(M)
        env.check(m.shape == (1, 1), "one by one covariance")
        chols.append(m[0, 0])
        return env.tensor(env.array([[factors[min(len(chols), 3) - 1]]]))
    env.patch(torch.linalg, "cholesky", cholesky)
    env.patch(TransferSubspaceLearningAdapter, "_F", lambda self, *a, **k: 7.0)
    z = [X[i, 0] * Q[0, 0] + X[i, 1] * Q[1, 0] for i in range(n)]

    def var(idx):
        m = sum(z[i] for i in idx) / len(idx)
        return sum((z[i] - m) * (z[i] - m) for i in idx) / len(idx)
    vs, vt = var(src), var(tgt)
    env.assume(vs > 0.01)
    env.assume(vt > 0.01)
    ad = TransferSubspaceLearningAdapter(n_components=1, base_method=method, mu=mu, reg=reg)
    ad.fit(X, y, sample_domain=d)
    got = opt.calls[0][5]
    env.cover("evaluated")
    env.check(len(chols) == 3, "three covariances")
    if len(chols) != 3:
        return
    for m, v in zip(chols, [2 * vs, vs + vt, 2 * vt]):
        env.check_eq(m * v, 1.0, "precision of the pooled embedding")
    Lss, Lst, Ltt = factors

    def k(I, J, l):
        s = 0
        for i in I:
            for j in J:
                s = s + np.exp(-0.5 * _dist2(env, [z[i] * l], [z[j] * l]))
        return s / (len(I) * len(J))
    D = k(src, src, Lss) + k(tgt, tgt, Ltt) - 2 * k(src, tgt, Lst)
    env.check_eq(got, 7.0 + mu * D, "base objective plus mu times the discrepancy")


# ---------------------------------------------------------------- MMDLSConS

def _labels(env, kind, n):
    if kind == "discrete":
        return env.array([float(v) for v in env.pick("y", env.p["ys"])]).astype(np.int64)
    return env.array(env.pick("y", env.p["ys"]))


def _inv(M):
    """exact inverse of a small matrix of rationals and symbols (Gauss)"""
    n = len(M)
    A = [list(r) + [1 if i == j else 0 for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        p = A[c][c]
        A[c] = [v / p for v in A[c]]
        for r in range(n):
            if r != c:
                f = A[r][c]
                A[r] = [u - f * v for u, v in zip(A[r], A[c])]
    return [r[n:] for r in A]


def mmdls_objective(env):
    """the mapping is the one of the labels, the objective the regularised mean discrepancy"""
    cut = env.p["cut"]
    n = len(cut)
    width = env.p["width"]
    d = env.array(cut)
    src, tgt = [i for i in range(n) if cut[i] >= 0], [i for i in range(n) if cut[i] < 0]
    m = len(src)
    X = env.reals("X", (n, width), -3, 3)
    lab = env.pick("y", env.p["ys"])
    y = np.array(lab, dtype=np.int64)
    gamma, reg_m = env.pick("params", [(1.0, 0.5), (0.25, 2.0)])
    reg_k = env.p["reg_k"]
    opt = Minimise(env, mapping)
    ad = MMDLSConSMappingAdapter(gamma=gamma, reg_k=reg_k, reg_m=reg_m, tol=0.125, max_iter=7)
    X0 = env.snapshot(X)
    ad.fit(X, y, sample_domain=d)
    env.check_eq(X, X0, "input untouched")
    env.check(len(opt.calls) == 1, "one minimisation")
    func, x0, k, sol, at, got = opt.calls[0]
    env.check(k.get("tol") == 0.125 and k.get("max_iter") == 7, "tolerance and number of iterations passed on")
    env.cover("fitted")
    ys = [lab[i] for i in src]
    classes = sorted(set(ys))
    env.check([tuple(x.shape) for x in x0] == [(len(classes), width)] * 2, "one scaling and one offset per class")
    env.check_eq(env.arr(x0[0].detach()), np.ones((len(classes), width)), "starts from the identity")
    env.check_eq(env.arr(x0[1].detach()), np.zeros((len(classes), width)), "starts without offset")
    # what is kept
    G, H = sol
    for i in range(m):
        c = classes.index(ys[i])
        env.check_eq(ad.W_[i], G[c], "scaling of the row's class")
        env.check_eq(ad.B_[i], H[c], "offset of the row's class")
    env.check_eq(ad.G_, G, "scalings kept")
    env.check_eq(ad.H_, H, "offsets kept")
    # the objective at any point
    G, H = at
    new = [[G[classes.index(ys[a]), j] * X[i, j] + H[classes.index(ys[a]), j] for j in range(width)]
           for a, i in enumerate(src)]
    T = _rows(X, tgt)
    om = [[1.0 / (ys.count(ys[a]) + reg_k) if ys[a] == ys[b] else 0.0 for b in range(m)] for a in range(m)]
    col = [sum(om[a][b] for a in range(m)) for b in range(m)]
    dist = _dist2 if env.p["gaussian"] else _dist
    kern = lambda u, v: np.exp(-gamma * dist(env, u, v))
    J = 0
    for a in range(m):
        for b in range(m):
            J = J + col[a] * col[b] * kern(new[a], new[b]) / m ** 2
        for t in T:
            J = J - 2 * col[a] * kern(t, new[a]) / (m * len(T))
        for j in range(width):
            w, o = G[classes.index(ys[a]), j], H[classes.index(ys[a]), j]
            J = J + reg_m * ((w - 1) * (w - 1) + o * o) / m
    env.check_eq(got, J, "Gaussian kernel" if env.p["gaussian"] else "mean discrepancy plus the regularisation")


def mmdls_regression(env):
    """rows with the same label are mapped alike"""
    cut = env.p["cut"]
    n = len(cut)
    d = env.array(cut)
    src = [i for i in range(n) if cut[i] >= 0]
    X = env.reals("X", (n, 1), -3, 3)
    lab = env.pick("y", [[0.5, 1.5, 0.5, 0.25], [2.5, 2.5, 2.5, 0.5], [0.5, 1.25, 3.5, 0.0]])
    reg_k = env.pick("reg_k", [1e-3, 0.5])
    opt = Minimise(env, mapping, evaluate=False)
    ad = MMDLSConSMappingAdapter(gamma=0.5, reg_k=reg_k)
    ad.fit(X, np.array(lab), sample_domain=d)
    func, x0, k, (G, H), at, got = opt.calls[0]
    env.cover("fitted")
    m = len(src)
    env.check([tuple(x.shape) for x in x0] == [(m, 1)] * 2, "one scaling and one offset per source row")
    ys = [lab[i] for i in src]
    K = np.array([[np.exp(-0.5 * (a - b) ** 2) for b in ys] for a in ys])
    R = K @ np.linalg.inv(K + reg_k * np.eye(m))
    for a in range(m):
        env.check_eq(ad.W_[a, 0], sum(float(R[a, b]) * G[b, 0] for b in range(m)), "scaling regressed on the labels", tol=1e-5)
        env.check_eq(ad.B_[a, 0], sum(float(R[a, b]) * H[b, 0] for b in range(m)), "offset regressed on the labels", tol=1e-5)


def mmdls_transform(env):
    """source rows are moved by the map of their label, target rows stay"""
    n, width = env.p["n"], 1
    X, d, src, tgt = _data(env, width=width, box=3)
    y = env.ints("y", n, 0, 1)
    opt = Minimise(env, mapping, evaluate=False)
    ad = MMDLSConSMappingAdapter(gamma=1.0)
    ys = [int(y[i]) for i in src]
    out = ad.fit_transform(X, y, sample_domain=d)
    G, H = opt.calls[0][3]
    classes = sorted(set(ys))
    env.cover("fitted")

    def image(x, c):
        k = classes.index(c)
        return G[k] * x + H[k]
    for a, i in enumerate(src):
        env.check_eq(out[i], image(X[i], ys[a]), "source row moved by the map of its class")
    for i in tgt:
        env.check_eq(out[i], X[i], "target row unchanged")
    # new data
    Z, e, s2, t2 = _data(env, env.p["n2"], "2", width=width, box=3, need_t=False)
    with_y = env.pick("labels", [True, False])
    v = env.ints("v", env.p["n2"], 0, 1)
    Z0 = env.snapshot(Z)
    if with_y:
        env.assume(all(any(int(v[i]) == c for c in classes) for i in s2))
        out = ad.transform(Z, v, sample_domain=e, allow_source=True)
    else:
        out = ad.transform(Z, sample_domain=e, allow_source=True)
    env.check_eq(Z, Z0, "input untouched")
    same = len(s2) == len(src) and all(bool(Z[i][0] == X[j][0]) for i, j in zip(s2, src))
    for k, i in enumerate(s2):
        if same:
            env.check_eq(out[i], image(Z[i], ys[k]), "known source rows are moved as at fit time")
        elif with_y:
            env.check_eq(out[i], image(Z[i], int(v[i])), "new source row moved by the map of its label")
        else:
            dist = [(Z[i, 0] - X[j, 0]) * (Z[i, 0] - X[j, 0]) for j in src]
            ok = False
            for a in range(len(src)):
                near = env.eq(out[i], image(Z[i], ys[a]))
                for o in dist:
                    near = near & (dist[a] <= o)
                ok = ok | near
            env.check(ok, "new source row moved by the map of the nearest source row")
    for i in t2:
        env.check_eq(out[i], Z[i], "target row unchanged")


# ---------------------------------------------------------------- torch_minimize

def minimise(env):
    """whatever the optimiser answers: the solution, the loss there and a warning iff the gradient is above tol"""
    many = env.pick("many", [False, True])
    ends = [env.reals("a", (2, 1), -3, 3)] + ([env.reals("b", 2, -3, 3)] if many else [])
    grads = [env.reals("ga", (2, 1), -3, 3)] + ([env.reals("gb", 2, -3, 3)] if many else [])
    tol = env.pick("tol", [1e-6, 0.5])
    max_iter = env.pick("max_iter", [1, 50])
    seen = {}

    class Lbfgs:
        def __init__(self, params, **k):
            self.params = list(params)
            seen.update(k)
            seen["start"] = [env.arr(p.detach().clone()) for p in self.params]

        def zero_grad(self, *a, **k):
            seen["zeroed"] = True

        def step(self, closure):
            seen["value"] = env.arr(closure().detach())
            with torch.no_grad():
                for p, v, g in zip(self.params, ends, grads):
                    p.copy_(env.tensor(v))
                    p.grad = env.tensor(g)
    env.patch(torch.optim, "LBFGS", Lbfgs)
    starts = [env.reals("sa", (2, 1), -3, 3)] + ([env.reals("sb", 2, -3, 3)] if many else [])

    def loss(*xs):
        tot = 0.0
        for k, x in enumerate(xs):
            tot = tot + (k + 1.0) * (x * x).sum() + x.sum()
        return tot

    def value(vs):
        tot = 0.0
        for k, v in enumerate(vs):
            for e in v.ravel():
                tot = tot + (k + 1.0) * (e * e) + e
        return tot
    ts = [env.tensor(s) for s in starts]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        sol, val = utils.torch_minimize(loss, tuple(ts) if many else ts[0], tol=tol, max_iter=max_iter)
    w = [x for x in w if "converge" in str(x.message)]
    env.cover("ran")
    env.check(seen.get("max_iter") == max_iter, "number of iterations passed on")
    env.check(seen.get("tolerance_grad") == tol, "tolerance passed on")
    env.check("zeroed" in seen, "gradients are reset before they are accumulated")
    for s, g in zip(starts, seen["start"]):
        env.check_eq(g, s, "starts from the given point")
    env.check_eq(seen["value"], value(starts), "the closure evaluates the loss")
    got = sol if many else [sol]
    env.check(isinstance(sol, list if many else np.ndarray) or not many, "a single solution is not wrapped")
    for g, e in zip(got, ends):
        env.check_eq(g, e, "the optimiser's point is the solution")
    env.check_eq(val, value(ends), "the loss at the solution")
    big = False
    for g in grads:
        for e in g.ravel():
            big = big | (e > tol) | (e < -tol)
    env.check((len(w) == 1) == bool(big), "warns exactly when the gradient is above the tolerance")


_s = dict(cover=["fitted"])
_m = dict(width=1, reg_k=0.5, gaussian=False)
INSTANCES = [
    ("tsl_pca", tsl_base, dict(n=3, nc=1, method="pca"), dict(_s, time=100)),
    ("tsl_pca2", tsl_base, dict(n=3, nc=2, method="pca"), dict(_s, time=100)),
    ("tsl_flda", tsl_base, dict(n=4, nc=1, method="flda", cuts=[[1, -1, 0, 1], [2, 1, -1, -2]]), dict(_s, time=200)),
    ("tsl_lpp", tsl_base, dict(n=3, nc=1, method="lpp"), dict(_s, time=150)),
    ("tsl_fit", tsl_fit, dict(n=2), dict(_s, time=100)),
    ("tsl_divergence", tsl_divergence, dict(n=4, method="pca", cut=[1, -1, 2, -2]), dict(cover=["evaluated"], time=150)),
    ("mmdls_objective", mmdls_objective, dict(_m, cut=[1, -1, 2, -1], ys=[[0, -1, 1, -1], [2, -1, 2, -1]]), dict(_s, time=150)),
    ("mmdls_objective3", mmdls_objective, dict(_m, cut=[-1, 1, 0, 1], ys=[[0, 1, 0, 1], [0, 3, 2, 3], [0, 1, 1, 1]]),
     dict(_s, time=150)),
    ("mmdls_gaussian", mmdls_objective, dict(_m, gaussian=True, cut=[1, -1, 2, -1], ys=[[0, -1, 1, -1]]), dict(_s, time=100)),
    ("mmdls_regression", mmdls_regression, dict(cut=[1, -1, 1, 2]), dict(_s, time=100)),
    ("mmdls_transform", mmdls_transform, dict(n=3, n2=1), dict(_s, time=150, exact_sqrt=True)),
    ("mmdls_transform2", mmdls_transform, dict(n=2, n2=2), dict(_s, time=150)),
    ("mmdls_transform3", mmdls_transform, dict(n=3, n2=2), dict(_s, tier="thorough", exact_sqrt=True)),
    ("minimise", minimise, dict(), dict(cover=["ran"], time=100)),
]
