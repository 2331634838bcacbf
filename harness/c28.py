"""C28 deep adaptation losses follow their definitions."""
import numpy as np
import ot
import torch

from harness import deep as D
from skada.deep import losses as L
from skada.deep import utils as U
from skada.deep._class_confusion import MCCLoss
from skada.deep._divergence import CANLoss, DANLoss, DeepCoralLoss
from skada.deep._optimal_transport import DeepJDOTLoss
from skada.deep.utils import SphericalKMeans

TORCH = True
ASSUMPTIONS = ["exp and log are uninterpreted functions (exp positive)",
               "the transport solver, the singular value decomposition and (for the clustering and CDD) the cosine "
               "similarity are replaced by arbitrary functions of the rows given to them"]


def _dist(env, a, b):
    """distance of two rows, as torch computes it"""
    r = torch.cdist(env.tensor(env.array([list(a)])), env.tensor(env.array([list(b)])))
    return env.arr(r)[0, 0]


def _rows(X):
    return [[X[i, j] for j in range(X.shape[1])] for i in range(X.shape[0])]


def _sq(a, b):
    return sum((u - v) * (u - v) for u, v in zip(a, b))


# ---------------------------------------------------------------- DeepCORAL

def coral(env):
    ns, nt, p = env.p["ns"], env.p["nt"], env.p["p"]
    S, T = env.reals("s", (ns, p)), env.reals("t", (nt, p))
    centred = env.pick("assume_centered", [False, True])
    via = env.pick("via", ["function", "class"])
    f = (lambda a, b: L.deepcoral_loss(a, b, assume_centered=centred)) if via == "function" else \
        (lambda a, b: DeepCoralLoss(assume_centered=centred)(features_s=a, features_t=b, y_s=None))
    got = env.arr(f(env.tensor(S), env.tensor(T)))
    env.cover("centred" if centred else "plain")

    def cov(X):
        X = _rows(X)
        n = len(X)
        m = [0 if centred else sum(r[j] for r in X) / n for j in range(p)]
        return [[sum((r[a] - m[a]) * (r[b] - m[b]) for r in X) / (n - 1) for b in range(p)] for a in range(p)]
    A, B = cov(S), cov(T)
    want = sum((A[a][b] - B[a][b]) ** 2 for a in range(p) for b in range(p))
    env.check_eq(got * (4 * p * p), want, "squared Frobenius distance of the covariances over 4 d^2")


# ---------------------------------------------------------------- DAN

def _kernel(env, a, b, sigmas):
    d = _dist(env, a, b)
    return sum(np.exp(-(1.0 / s * d)) for s in sigmas)


def _mmd(env, S, T, sigmas):
    m = lambda A, B: sum(_kernel(env, a, b, sigmas) for a in A for b in B) / (len(A) * len(B))
    return m(S, S) + m(T, T) - 2 * m(S, T)


def dan(env):
    ns, nt, p = env.p["ns"], env.p["nt"], env.p["p"]
    S, T = env.reals("s", (ns, p)), env.reals("t", (nt, p))
    sig = env.pick("sigmas", [[1.0], [0.5, 2.0], [0.25, 1.0, 4.0]])
    if env.pick("via", ["function", "class"]) == "function":
        got = L.dan_loss(env.tensor(S), env.tensor(T), sigmas=sig)
    else:
        got = DANLoss(sigmas=sig)(features_s=env.tensor(S), features_t=env.tensor(T), y_s=None)
    env.cover("loss")
    env.check_eq(env.arr(got), _mmd(env, _rows(S), _rows(T), sig), "multi kernel MMD over all pairs")
    same = L.dan_loss(env.tensor(S), env.tensor(S), sigmas=sig)
    env.check_eq(env.arr(same), 0.0, "no discrepancy between equal samples")


def dan_default(env):
    """bandwidths from the median distance of the source"""
    ns, nt = env.p["ns"], env.p["nt"]
    S = env.array([[float(v)] for v in env.pick("S", [[0, 1], [0, 3], [2, 2], [0, 1, 3]])])
    T = env.reals("t", (nt, 1))
    eps = env.pick("eps", [1e-7, 0.5])
    kw = {} if eps == 1e-7 else dict(eps=eps)
    if env.pick("via", ["function", "class"]) == "function":
        got = L.dan_loss(env.tensor(S), env.tensor(T), **kw)
    else:
        got = DANLoss(**kw)(features_s=env.tensor(S), features_t=env.tensor(T))
    env.cover("loss")
    ds = torch.cdist(env.tensor(S), env.tensor(S))
    med = env.arr(torch.median(ds) + eps)
    sig = env.arr(torch.tensor([2 ** (-8) * 2 ** (i * 1 / 2) for i in range(33)]) * env.tensor(med))
    beta = env.arr(1.0 / env.tensor(sig))
    k = lambda a, b: sum(np.exp(-(beta[i] * _dist(env, a, b))) for i in range(33))
    m = lambda A, B: sum(k(a, b) for a in A for b in B) / (len(A) * len(B))
    A, B = _rows(S), _rows(T)
    env.check_eq(env.arr(got), m(A, A) + m(B, B) - 2 * m(A, B), "33 bandwidths around the median source distance")


# ---------------------------------------------------------------- MCC

def mcc(env):
    n, K = env.p["n"], env.p["K"]
    Y = env.reals("y", (n, K), -5, 5)
    P = env.reals("p", (n, K), 0.01, 1)
    for i in range(n):
        env.assume(sum(P[i, k] for k in range(K)) == 1)
    T = env.pick("T", [1, 2.0])
    eps = env.pick("eps", [1e-7, 0.25])
    seen = []

    def softmax(x, dim=None, *a, **k):
        seen.append((x, dim))
        return env.tensor(P)
    env.patch(torch.nn.functional, "softmax", softmax)
    env.patch(torch, "softmax", softmax)
    kw = dict(T=T) if T != 1 else {}
    if eps != 1e-7:
        kw["eps"] = eps
    if env.pick("via", ["function", "class"]) == "function":
        got = L.mcc_loss(env.tensor(Y), **kw)
    else:
        got = MCCLoss(**kw)(y_pred_t=env.tensor(Y), y_s=None, y_pred_s=None)
    env.cover("loss")
    env.check(len(seen) == 1 and seen[0][1] in (1, -1), "probabilities per row")
    x = env.arr(seen[0][0])
    for i in range(n):
        env.check_eq(x[i] * T, Y[i], "logits over the temperature")
    H = [-sum(P[i, k] * np.log(P[i, k] + eps) for k in range(K)) for i in range(n)]
    E = [1 + np.exp(-h) for h in H]
    mean = sum(E) / n
    W = [e / mean for e in E]
    C = [[sum(P[i, a] * W[i] * P[i, b] for i in range(n)) for b in range(K)] for a in range(K)]
    tot = 0
    for a in range(K):
        s = sum(C[a][b] for b in range(K))
        for b in range(K):
            if a != b:
                tot = tot + abs(C[a][b] / s)
    env.check_eq(env.arr(got) * K, tot, "mean off-diagonal mass of the weighted class correlations")


# ---------------------------------------------------------------- DeepJDOT

def jdot(env):
    ns, nt, p, K = env.p["ns"], env.p["nt"], env.p["p"], 2
    S, T = env.reals("s", (ns, p)), env.reals("t", (nt, p))
    ys = env.ints("y", ns, 0, K - 1)
    yp = env.reals("q", (nt, K))
    rd, rc = env.real("reg_dist", 0, 5), env.real("reg_cl", 0, 5)
    custom = env.pick("criterion", [False, True])
    wt = env.pick("weights", [False, True])
    a, b = env.reals("a", ns, 0, 1), env.reals("b", nt, 0, 1)
    seen = []

    def emd2(a, b, M, *ar, **k):
        seen.append((a, b, M))
        return M.sum() * 3.0 + 1.0
    env.patch(ot, "emd2", emd2)

    def crit(pred, lab):
        # one loss per (target, source) pair; class scores along axis 1
        out = []
        for k in range(K):
            out.append(pred[:, k] * (k + 2.0) * (lab * 3.0 + 1.0))
        return sum(out)
    kw = dict(criterion=crit) if custom else {}
    t = env.tensor
    if wt:
        got = L.deepjdot_loss(t(ys), t(yp), t(S), t(T), rd, rc, sample_weights=t(a), target_sample_weights=t(b), **kw)
    elif env.pick("via", ["function", "class"]) == "function":
        got = L.deepjdot_loss(t(ys), t(yp), t(S), t(T), rd, rc, **kw)
    else:
        kw = dict(target_criterion=crit) if custom else {}
        got = DeepJDOTLoss(rd, rc, **kw)(y_s=t(ys), y_pred_s=None, y_pred_t=t(yp), features_s=t(S), features_t=t(T))
    env.cover("loss")
    env.check(len(seen) == 1, "one transport problem")
    ga, gb, M = env.arr(seen[0])
    env.check(M.shape == (ns, nt), "cost of each source to each target")
    for i in range(ns):
        env.check_eq(ga[i], a[i] if wt else 1.0 / ns, "source marginal")
        for j in range(nt):
            d = _sq(_rows(S)[i], _rows(T)[j])
            if custom:
                c = sum(yp[j, k] * (k + 2.0) * (ys[i] * 3.0 + 1.0) for k in range(K))
            else:
                lse = np.log(sum(np.exp(yp[j, k]) for k in range(K)))
                c = lse - (yp[j, 1] if ys[i] == 1 else yp[j, 0])
            env.check_eq(M[i, j], rd * d + rc * c, "cost: squared distance and loss of the target prediction "
                         "against the source label")
    for j in range(nt):
        env.check_eq(gb[j], b[j] if wt else 1.0 / nt, "target marginal")
    env.check_eq(env.arr(got), env.arr(M.sum() * 3.0 + 1.0) if not hasattr(seen[0][2], "sum") else
                 env.arr(seen[0][2].sum() * 3.0 + 1.0), "the transport cost is the loss")


# ---------------------------------------------------------------- graph alignment

def gda(env):
    ns, p = env.p["n"], env.p["p"]
    metric = env.p["metric"]
    if metric == "cos":
        rows = [[3.0, 4.0], [-4.0, 3.0], [2.0, 0.0]]
        S, T = (env.array([env.pick(f"{w}{i}", rows) for i in range(ns)]) for w in "st")
    else:
        S, T = env.reals("s", (ns, p)), env.reals("t", (ns, p))
    lap = env.pick("laplac", ["laplac1", "laplac2", "laplac3"])
    seen, vals = [], []

    def svd(A, *a, **k):
        seen.append(A)
        v = env.array(env.pick(f"sv{len(seen)}", [[4.0, 1.0, 0.0], [1.0, 0.5, 0.0]])[:ns])
        vals.append(v)
        return None, env.tensor(v), None
    env.patch(torch.linalg, "svd", svd)
    env.patch(torch.linalg, "svdvals", lambda A, *a, **k: svd(A)[1])
    got = env.arr(L.gda_loss(env.tensor(S), env.tensor(T), metric=metric, laplac=lap))
    env.cover(lap)
    env.check(len(seen) == 2, "two spectra")

    def adj(X):
        X = _rows(X)
        if metric == "euc":
            return [[_dist(env, a, b) for b in X] for a in X]
        if metric == "gauss":
            return [[np.exp(-0.5 * _sq(a, b) / 1.5 ** 2) for b in X] for a in X]
        N = _rows(env.arr(torch.nn.functional.normalize(env.tensor(env.array(X)), p=2, dim=1)))
        return [[sum(u * v for u, v in zip(a, b)) for b in N] for a in N]
    for X, M in zip((S, T), seen):
        A, M = adj(X), env.arr(M)
        v = [sum(r) for r in A]
        env.check(M.shape == (ns, ns), "one node per row")
        for i in range(ns):
            for j in range(ns):
                if lap == "laplac1":
                    env.check_eq(M[i, j], -(1 / (v[i] + 1e-7)) * A[i][j], "random walk matrix, negated")
                elif lap == "laplac2":
                    env.check_eq(M[i, j], (v[i] if i == j else 0) - A[i][j], "D - A")
                else:
                    di, dj = (1 / np.sqrt(v[k] + 1e-7) for k in (i, j))
                    env.check_eq(M[i, j], (1 if i == j else 0) - di * A[i][j] * dj, "I - D^-1/2 A D^-1/2")
    env.check_eq(got * got, sum((vals[0][k] - vals[1][k]) ** 2 for k in range(ns)), "distance of the spectra")
    env.check(got >= 0, "a norm")


def nap(env):
    n, m, K, C = env.p["n"], env.p["m"], env.p["K"], 2
    F = env.reals("f", (n, 1), -9, 9)
    M = env.reals("m", (m, 1), -9, 9)
    O = env.reals("o", (m, C), 0.01, 1)
    Y = env.reals("y", (n, C), -5, 5)
    order = env.perm("idx", m)[:n]
    idx = env.array(order)
    snap = env.snapshot(M)
    for i in range(n):
        for j in range(m):
            for k in range(j):
                if order[i] not in (j, k):
                    env.assume(_sq([F[i, 0]], [M[j, 0]]) != _sq([F[i, 0]], [M[k, 0]]))
    t = env.tensor
    got = L.nap_loss(t(F), t(Y), t(M), t(O), t(idx), K=K)
    env.cover("loss")
    num = den = 0
    for i in range(n):
        others = [j for j in range(m) if j != order[i]]
        d = {j: _sq([F[i, 0]], [M[j, 0]]) for j in others}
        near = []
        for j in others:
            closer = sum(1 for k in others if d[k] < d[j])
            if closer < K:
                near.append(j)
        avg = [sum(O[j, c] for j in near) / K for c in range(C)]
        lab = 0 if avg[0] >= avg[1] else 1
        lse = np.log(sum(np.exp(Y[i, c]) for c in range(C)))
        num = num + avg[lab] * (lse - Y[i, lab])
        den = den + avg[lab]
    env.check_eq(env.arr(got) * (den + 1e-7), num, "cross entropy against the labels of the nearest memories, "
                 "weighted by their confidence")
    env.check_eq(M, snap, "the memory is not changed")


# ---------------------------------------------------------------- clustering, CDD

class Cosine:
    """cosine similarity as an arbitrary function of the two rows.  Rows are told
    apart by their first (concrete) coordinate; fresh values whenever asked."""

    def __init__(self, env, key=None):
        self.env, self.n, self.memo, self.key, self.calls = env, 0, {}, key, 0
        env.patch(torch.nn.functional, "cosine_similarity", self)
        env.patch(torch, "cosine_similarity", self)
        if hasattr(U, "cosine_similarity"):
            env.patch(U, "cosine_similarity", self)

    def value(self, a, b):
        k = (self.key(a), self.key(b)) if self.key else None
        if k is None or k not in self.memo:
            self.n += 1
            v = self.env.real(f"cos{self.n}" if k is None else f"cos_{k[0]}_{k[1]}", -1, 1)
            if k is None:
                return v
            self.memo[k] = v
        return self.memo[k]

    def __call__(self, x1, x2, dim=1, eps=1e-8):
        self.calls += 1
        a, b = self.env.arr(x1), self.env.arr(x2)
        if a.ndim == 3:
            n, K = max(a.shape[0], b.shape[0]), max(a.shape[1], b.shape[1])
            ia = lambda i, k: a[i if a.shape[0] > 1 else 0, k if a.shape[1] > 1 else 0]
            ib = lambda i, k: b[i if b.shape[0] > 1 else 0, k if b.shape[1] > 1 else 0]
            return self.env.tensor(self.env.array([[self.value(ia(i, k), ib(i, k)) for k in range(K)] for i in range(n)]))
        n = max(a.shape[0], b.shape[0])
        return self.env.tensor(self.env.array([self.value(a[i], b[i]) for i in range(n)]))


def cdd(env):
    ns, nt, K = env.p["ns"], env.p["nt"], env.p["K"]
    S = env.reals("s", (ns, 2), -5, 5)
    T = env.reals("t", (nt, 2), -5, 5)
    for i in range(nt):
        T[i, 0] = float(i)
    ys = env.ints("y", ns, 0, K - 1)
    km = SphericalKMeans(n_clusters=K)
    km.cluster_centers_ = env.tensor(env.array([[100.0 + k, 1.0] for k in range(K)]))
    km.inertia_, km.n_iter_ = 0.0, 1
    cos = Cosine(env, key=lambda r: int(r[0]))
    sim = [[cos.value(T[i], [100.0 + k]) for k in range(K)] for i in range(nt)]
    thr = env.real("thr", 0, 1)
    cth = env.pick("class_threshold", [1, 2])
    sig = [0.5, 2.0]
    for i in range(nt):
        for k in range(K):
            for j in range(k):
                env.assume(sim[i][k] != sim[i][j])
    t = env.tensor
    if env.pick("via", ["function", "class"]) == "function":
        got = L.cdd_loss(t(ys), t(S), t(T), km, sigmas=sig, distance_threshold=thr, class_threshold=cth)
    else:
        got = CANLoss(distance_threshold=thr, class_threshold=cth, sigmas=sig, target_kmeans=km)(
            y_s=t(ys), features_s=t(S), features_t=t(T), y_pred_s=None)
    env.cover("loss")
    if cos.calls < 2:
        return
    kept, lab = [], {}
    for i in range(nt):
        c = 0
        for k in range(1, K):
            if sim[i][k] > sim[i][c]:
                c = k
        if 0.5 * (1 - sim[i][c]) < thr:
            kept.append(i)
            lab[i] = c
    if len(kept) < nt:
        env.cover("ambiguous row discarded")
    valid = [k for k in range(K) if sum(1 for i in kept if lab[i] == k) >= cth]
    Sr, Tr = _rows(S), _rows(T)
    mean = lambda A, B: sum(_kernel(env, a, b, sig) for a in A for b in B) / (len(A) * len(B)) if A and B else 0
    intra = inter = 0
    ycls = [[Sr[i] for i in range(ns) if ys[i] == k] for k in range(K)]
    tcls = [[Tr[i] for i in kept if lab[i] == k] for k in range(K)]
    for a in valid:
        for b in valid:
            v = mean(ycls[a], ycls[a]) + mean(tcls[b], tcls[b]) - 2 * mean(ycls[a], tcls[b])
            if a == b:
                intra = intra + v
            else:
                inter = inter + v
    if len(valid) == K:
        env.cover("all classes")
    env.check_eq(env.arr(got), intra / K - inter / (K * K - K), "intra class minus inter class discrepancy")


def cdd_refuses(env):
    S = env.reals("s", (2, 2))
    env.cover("refused")
    for bad in (None, "kmeans", 3):
        env.raises(lambda: L.cdd_loss(env.tensor(env.array([0, 1])), env.tensor(S), env.tensor(S), bad), ValueError,
                   "a fitted clustering is required")


def km_predict(env):
    n, K = env.p["n"], env.p["K"]
    X = env.reals("x", (n, 2), -5, 5)
    for i in range(n):
        X[i, 0] = float(i)
    km = SphericalKMeans(n_clusters=K)
    km.cluster_centers_ = env.tensor(env.array([[100.0 + k, 1.0] for k in range(K)]))
    cos = Cosine(env, key=lambda r: int(r[0]))
    got = env.arr(km.predict(env.tensor(X)))
    env.cover("predicted")
    if not cos.calls:
        return
    env.check(got.shape == (n,), "one cluster per row")
    for i in range(n):
        c = int(got[i])
        for k in range(K):
            env.check(cos.value(X[i], [100.0 + c]) >= cos.value(X[i], [100.0 + k]), "the most similar centroid")


def _direction(r):
    n = sum(float(v) ** 2 for v in r) ** 0.5
    return tuple(round(float(v) / n, 5) + 0.0 for v in r) if n > 0 else tuple(0.0 for v in r)


class Directions(Cosine):
    """cosine similarity as an arbitrary function of the directions of two concrete rows"""

    def value(self, a, b):
        k = (_direction(a), _direction(b))
        if k not in self.memo:
            self.memo[k] = self.env.real(f"cos{len(self.memo)}", -1, 1)
        return self.memo[k]

    def oracle(self, a, b):
        if self.calls:
            return self.value(a, b)
        p, q = _direction(a), _direction(b)
        return sum(u * v for u, v in zip(p, q))


def km_fit(env):
    """assignments and centroids of every iteration, for arbitrary similarities"""
    n, K, runs = env.p["n"], env.p["K"], env.p.get("runs", 1)
    rows_ = env.pick("X", [[[3.0, 4.0], [1.0, 0.0], [-4.0, 3.0]], [[0.0, -2.0], [5.0, 12.0], [1.0, 1.0]]])[:n]
    unit = [[v / (r[0] ** 2 + r[1] ** 2) ** 0.5 for v in r] for r in rows_]
    cos = Directions(env)
    init = [[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0]][:K]
    given = env.p.get("given", True)
    kw = dict(initial_centroids=env.tensor(env.array(init))) if given else dict(n_init=runs)
    shuffles = []
    if not given:
        def randperm(m, *a, **k):
            p = env.perm(f"sh{len(shuffles)}", m)
            shuffles.append(p)
            return torch.as_tensor(p)
        env.patch(torch, "randperm", randperm)
    most = env.p.get("iters", 1)
    km = SphericalKMeans(n_clusters=K, max_iter=most, tol=1e-4, **kw)
    km.fit(env.tensor(env.array(rows_)))
    env.cover("fitted")
    runs_ = []
    for r in range(1 if given else runs):
        cur = [list(v) for v in (init if given else [unit[i] for i in shuffles[r][:K]])]
        done = 0
        while done < most:
            lab = []
            for i in range(n):
                sim = [cos.oracle(unit[i], c) for c in cur]
                b = 0
                for k in range(1, K):
                    if sim[k] > sim[b]:
                        b = k
                for k in range(K):
                    if k < b:
                        env.assume(sim[k] != sim[b])
                lab.append(b)
            new = []
            for k in range(K):
                rows = [unit[i] for i in range(n) if lab[i] == k]
                new.append([sum(q[j] for q in rows) for j in range(2)] if rows else [0.0, 0.0])
            done += 1
            if all(abs(u - v) <= 1e-4 + 1e-5 * abs(v) for p, q in zip(cur, new) for u, v in zip(p, q)):
                env.cover("converged")
                break
            cur = new
        runs_.append((sum(0.5 * (1 - cos.oracle(unit[i], cur[lab[i]])) for i in range(n)), cur, done))
    best = runs_[0]
    for r in runs_[1:]:
        if r[0] < best[0]:
            best = r
    got = env.arr(km.cluster_centers_)
    for k in range(K):
        env.check_eq(got[k], env.array(best[1][k]), "centroid: sum of the normalised rows of its cluster", tol=1e-3)
    env.check_eq(km.inertia_, best[0], "the run of lowest inertia is kept")
    env.check(km.n_iter_ == best[2], "number of iterations")


def km_seed(env):
    """the initial centroids depend on random_state only, and the global generator is left alone"""
    X = torch.tensor([[np.cos(v), np.sin(v)] for v in np.linspace(0, 6, 9)])
    seed = env.pick("seed", [0, 3])
    draws = []
    real = torch.randperm
    log = []

    def randperm(*a, **k):
        r = real(*a, **k)
        log.append([int(v) for v in r])
        return r
    env.patch(torch, "randperm", randperm)
    for glob in (1, 2):
        torch.manual_seed(glob)
        before = torch.random.get_rng_state()
        del log[:]
        SphericalKMeans(n_clusters=3, n_init=2, random_state=seed).fit(X)
        draws.append(list(log))
        env.check(bool((before == torch.random.get_rng_state()).all()), "the global generator is not touched")
    env.cover("seeded")
    env.check(draws[0] == draws[1] and len(draws[0]) == 2, "same initialisations for the same random_state")


INSTANCES = [
    ("coral_22_1", coral, dict(ns=2, nt=2, p=1), dict(cover=["plain", "centred"])),
    ("coral_23_2", coral, dict(ns=2, nt=3, p=2), dict(cover=["plain", "centred"], cost=3)),
    ("coral_33_2", coral, dict(ns=3, nt=3, p=2), dict(cover=["plain", "centred"], tier="thorough")),
    ("dan_22_1", dan, dict(ns=2, nt=2, p=1), dict(cover=["loss"])),
    ("dan_23_2", dan, dict(ns=2, nt=3, p=2), dict(cover=["loss"], cost=3)),
    ("dan_default", dan_default, dict(ns=2, nt=2), dict(cover=["loss"], cost=3)),
    ("mcc_1_2", mcc, dict(n=1, K=2), dict(cover=["loss"])),
    ("mcc_2_2", mcc, dict(n=2, K=2), dict(cover=["loss"], cost=3)),
    ("mcc_2_3", mcc, dict(n=2, K=3), dict(cover=["loss"], cost=3)),
    ("jdot_22", jdot, dict(ns=2, nt=2, p=1), dict(cover=["loss"], cost=3)),
    ("jdot_23", jdot, dict(ns=2, nt=3, p=2), dict(cover=["loss"], cost=4)),
    ("jdot_31", jdot, dict(ns=3, nt=1, p=1), dict(cover=["loss"], cost=4)),
    ("gda_euc", gda, dict(n=2, p=1, metric="euc"), dict(cover=["laplac1", "laplac2", "laplac3"])),
    ("gda_gauss", gda, dict(n=3, p=1, metric="gauss"), dict(cover=["laplac1", "laplac2", "laplac3"])),
    ("gda_cos", gda, dict(n=2, p=2, metric="cos"), dict(cover=["laplac1", "laplac2", "laplac3"])),
    ("gda_euc_3", gda, dict(n=3, p=2, metric="euc"), dict(cover=["laplac1", "laplac2", "laplac3"])),
    ("nap_1_3_1", nap, dict(n=1, m=3, K=1), dict(cover=["loss"])),
    ("nap_1_4_2", nap, dict(n=1, m=4, K=2), dict(cover=["loss"], cost=4)),
    ("nap_2_3_1", nap, dict(n=2, m=3, K=1), dict(cover=["loss"], cost=5)),
    ("cdd_2_2", cdd, dict(ns=2, nt=2, K=2), dict(cover=["loss", "all classes", "ambiguous row discarded"], cost=4)),
    ("cdd_2_3", cdd, dict(ns=2, nt=3, K=2), dict(cover=["loss", "all classes", "ambiguous row discarded"], cost=6)),
    ("cdd_2_2_3", cdd, dict(ns=2, nt=2, K=3), dict(cover=["loss", "ambiguous row discarded"], cost=6)),
    ("cdd_refuses", cdd_refuses, {}, dict(cover=["refused"])),
    ("km_predict", km_predict, dict(n=2, K=3), dict(cover=["predicted"])),
    ("km_fit_3_2", km_fit, dict(n=3, K=2), dict(cover=["fitted"], cost=3)),
    ("km_fit_3_3", km_fit, dict(n=3, K=3), dict(cover=["fitted"], cost=3)),
    ("km_fit_init", km_fit, dict(n=3, K=2, given=False, runs=1), dict(cover=["fitted"], cost=3)),
    ("km_fit_runs", km_fit, dict(n=2, K=2, given=False, runs=2), dict(cover=["fitted"], cost=3)),
    ("km_fit_iters", km_fit, dict(n=3, K=2, iters=3), dict(cover=["fitted", "converged"], cost=3)),
    ("km_seed", km_seed, {}, dict(cover=["seeded"])),
]
