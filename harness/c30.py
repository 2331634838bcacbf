"""C30 adversarial, graph and memory based methods, and the factories of all deep methods."""
import numpy as np
import torch
from skorch.callbacks import Callback

from harness import deep as D
from skada import deep
from skada.deep import losses as L
from skada.deep import _adversarial as A
from skada.deep.base import DeepDADataset, DomainAwareCriterion, DomainAwareModule, DomainAwareNet, DomainBalancedDataLoader
from skada.deep.callbacks import ComputeSourceCentroids, MemoryBank
from skada.deep._graph_alignment import SPALoss
from skada.deep.modules import DomainClassifier, GradientReversalLayer
from skada.deep.utils import SphericalKMeans, check_generator

TORCH = True
ASSUMPTIONS = ["exp, log and (for symbolic arguments) square roots are uninterpreted functions; singular values are an "
               "arbitrary function of the matrix",
               "gradients are not symbolic: the optimiser step is outside the encoding (except the reversal rule itself)",
               "batch normalisation in evaluation mode"]


class Crit(torch.nn.Module):
    """domain criterion telling rows, positions and labels apart"""

    def __init__(self):
        super().__init__()
        self.calls = []

    def __deepcopy__(self, memo):
        return self

    def forward(self, p, lab):
        self.calls.append((p, lab))
        return (p * (3.0 * lab + 2.0)).mean() + 7.0 * lab.mean()


def crit(p, lab):
    return sum(v * (3.0 * lab + 2.0) for v in p) / len(p) + 7.0 * lab


# ------------------------------------------------------------------ losses

def domain_loss(env):
    """DANN and CDAN"""
    ns, nt = env.p["ns"], env.p["nt"]
    dt = torch.float64
    p, q = env.reals("p", ns, 0.01, 0.99), env.reals("q", nt, 0.01, 0.99)
    F, G = env.reals("f", (ns, 2)), env.reals("g", (nt, 2))
    cls = getattr(deep, env.p["cls"])
    c = Crit()
    loss = cls(domain_criterion=c) if env.p["custom"] else cls()
    t = env.tensor
    kw = dict(y_s=t(env.array([0] * ns)), y_pred_s=t(F), y_pred_t=t(G), features_s=t(F), features_t=t(G),
              sample_idx_s=None, sample_idx_t=None)
    got = loss(domain_pred_s=t(p, dt), domain_pred_t=t(q, dt), **kw)
    env.cover("loss")
    if env.p["custom"]:
        want = crit(list(p), 0.0) + crit(list(q), 1.0)
        env.check(sorted(tuple(a[0].shape) for a in c.calls) == sorted([(ns,), (nt,)]), "one evaluation per side")
    else:
        want = -sum(np.log(1.0 - v) for v in p) / ns - sum(np.log(v) for v in q) / nt
        for v in list(p) + list(q):
            env.assume(np.log(v) > -100)
            env.assume(np.log(1.0 - v) > -100)
    env.check_eq(env.arr(got), want, "source rows against 0 plus target rows against 1", **(dict(tol=1e-4) if dt == torch.float32 else {}))


def _ce(X, lab, K):
    return [np.log(sum(np.exp(r[k]) for k in range(K))) - _at(r, l) for r, l in zip(X, lab)]


def _at(r, l):
    for k in range(len(r) - 1):
        if l == k:
            return r[k]
    return r[len(r) - 1]


def _mce(env, X, lab, K, eps):
    P = env.arr(torch.softmax(env.tensor(X), dim=-1))
    return sum(np.log(1.0 - ((1.0 - eps) * _at(P[i], lab[i]) + eps / K)) for i in range(X.shape[0])) / X.shape[0]


def mce(env):
    n, K = env.p["n"], env.p["K"]
    X = env.reals("x", (n, K), -3, 3)
    y = env.ints("y", n, 0, K - 1)
    eps = env.pick("smoothing", [0.1, 0.5, 0.9])
    f = A.ModifiedCrossEntropyLoss() if eps == 0.1 else A.ModifiedCrossEntropyLoss(smoothing=eps)
    got = f(env.tensor(X), env.tensor(y))
    env.cover("loss")
    env.check_eq(env.arr(got), _mce(env, X, y, K, eps), "mean log of one minus the smoothed probability of the target class")


def _best(r):
    b = 0
    for k in range(1, len(r)):
        if r[k] > r[b]:
            b = k
    return b


def mdd(env):
    ns, nt, K = env.p["ns"], env.p["nt"], env.p["K"]
    P, Q = env.reals("p", (ns, K), -3, 3), env.reals("q", (nt, K), -3, 3)
    R, S = env.reals("r", (ns, K), -3, 3), env.reals("s", (nt, K), -3, 3)
    gamma = env.pick("gamma", [4.0, 0.0, 1.5])
    loss = deep.MDDLoss() if gamma == 4.0 else deep.MDDLoss(gamma=gamma)
    t = env.tensor
    got = loss(y_s=t(env.array([0] * ns)), y_pred_s=t(P), y_pred_t=t(Q), domain_pred_s=t(R), domain_pred_t=t(S),
               features_s=None, features_t=None)
    env.cover("loss")
    ce = _ce(R, [_best(r) for r in P], K)
    want = gamma * (sum(ce) / ns) - _mce(env, S, [_best(r) for r in Q], K, 0.1)
    env.check_eq(env.arr(got), want, "gamma * cross entropy of the discriminator on source minus the modified one on target, "
                 "against the classifier's classes")


def _svd(env):
    memo = {}

    def svdvals(M, *a, **k):
        return M.abs().sum(dim=0) * 2.0 + 1.0

    env.patch(torch.linalg, "svdvals", svdvals)
    env.patch(torch.linalg, "svd", lambda M, *a, **k: (None, svdvals(M), None))


def spa_loss(env):
    n = env.p["n"]
    _svd(env)
    F, G = env.reals("f", (n, 1), -3, 3), env.reals("g", (n, 1), -3, 3)
    p, q = env.reals("p", n, 0.01, 0.99), env.reals("q", n, 0.01, 0.99)
    Y = env.reals("y", (n, 2), -3, 3)
    M = env.array([[0.0], [1.0], [2.5]])
    O = env.array([[0.5, 0.5], [0.75, 0.25], [0.125, 0.875]])
    idx = env.array([env.pick("idx", [0, 1, 2])] * n)
    top = env.pick("max_epochs", [4, 10])
    ep = env.int("n_epochs", 0, top)
    r = env.reals("reg", 3, 0, 5)
    K = env.pick("K", [1, 2])
    c = Crit()
    loss = SPALoss(max_epochs=top, domain_criterion=c, memory_features=env.tensor(M), memory_outputs=env.tensor(O), K=K,
                   reg_adv=r[0], reg_gsa=r[1], reg_nap=r[2])
    env.check(loss.n_epochs == 0, "the schedule starts at 0")
    loss.n_epochs = ep
    t = env.tensor
    got = loss(y_s=None, y_pred_s=None, y_pred_t=t(Y), domain_pred_s=t(p), domain_pred_t=t(q), features_s=t(F), features_t=t(G),
               sample_idx_s=None, sample_idx_t=t(idx))
    env.cover("loss")
    frac = ep / top
    adv = 2.0 / (1.0 + np.exp(-10.0 * frac)) - 1.0
    gda = env.arr(L.gda_loss(t(F), t(G), metric="gauss"))
    nap = env.arr(L.nap_loss(t(G), t(Y), t(M), t(O), t(idx), K=K))
    env.check_eq(env.arr(got), r[0] * adv * (crit(list(p), 0.0) + crit(list(q), 1.0)) + r[1] * gda + r[2] * frac * nap,
                 "scheduled adversarial loss + graph alignment + scheduled pseudo-labels")


# ------------------------------------------------------------------ modules

def classifier(env):
    n, K = env.p["n"], env.p["K"]
    X = env.reals("x", (n, 2), -3, 3)
    torch.manual_seed(3)
    clf = (DomainClassifier(2, n_classes=K) if K > 1 else DomainClassifier(2)).double()
    clf.eval()
    keep = [m for m in clf.modules() if isinstance(m, torch.nn.Linear)]
    with torch.no_grad():
        for m in keep:
            m.weight.copy_(torch.round(m.weight * 8) / 4)
            m.bias.copy_(torch.round(m.bias * 8) / 4)
    out = env.arr(clf(env.tensor(X)))
    env.cover("predicted")
    env.check(out.shape == ((n,) if K == 1 else (n, K)), "one probability (or distribution) per row")
    for k in range(n):
        one = env.arr(clf(env.tensor(X[k:k + 1])))
        env.check(one.shape == ((1,) if K == 1 else (1, K)), "a batch of one row gives one output")
        vals = [out[k]] if K == 1 else list(out[k])
        env.check_eq(one[0], out[k] if K == 1 else out[k], "each row's output depends on that row only")
        for v in vals:
            env.check(0 <= v, "probability")
            env.check(v <= 1, "probability")
        if K > 1:
            env.check_eq(sum(vals), 1.0, "the classes' probabilities sum to one")


def classifier_values(env):
    """the probability is the sigmoid (softmax) of the network's scores; it does discriminate"""
    K = env.p["K"]
    torch.manual_seed(1)
    clf = (DomainClassifier(2, n_classes=K) if K > 1 else DomainClassifier(2)).double().eval()
    x, y = env.pick("x", [-2.0, 0.0, 1.0]), env.pick("y", [-1.0, 0.5, 3.0])
    X = torch.tensor([[x, y], [y, x], [5.0 + x, -4.0]])
    lin = [m for m in clf.modules() if isinstance(m, torch.nn.Linear)]
    bn = [m for m in clf.modules() if isinstance(m, torch.nn.BatchNorm1d)]
    s = lin[-1](torch.relu(bn[0](lin[0](X))))
    want = torch.softmax(s, dim=1) if K > 1 else 1 / (1 + torch.exp(-s[:, 0]))
    env.cover("predicted")
    env.check(bool(torch.allclose(clf(X), want)), "sigmoid (softmax) of the scores")


def reversal(env):
    n = env.p["n"]
    X, g = env.reals("x", (n, 2)), env.reals("g", (n, 2))
    alpha = env.real("alpha", 0, 5)

    class Ctx:
        def save_for_backward(self, *a):
            self.saved_tensors = a

        def mark_dirty(self, *a):
            pass
    ctx = Ctx()
    out = GradientReversalLayer.forward(ctx, env.tensor(X), alpha)
    env.cover("reversed")
    env.check_eq(env.arr(out), X, "identity forward")
    r = GradientReversalLayer.backward(ctx, env.tensor(g))
    r = r if isinstance(r, tuple) else (r,)
    env.check_eq(env.arr(r[0]), -alpha * g, "minus alpha times the gradient backward")
    env.check(all(v is None for v in r[1:]), "no gradient for alpha")


POINTS = [torch.tensor([[1.0, -2.0]], requires_grad=True), torch.tensor([[0.5, 0.25], [3.0, 1.0]], requires_grad=True)]
WEIGHTS = {K: torch.arange(1.0, K + 1) for K in (1, 3)}


def reversal_used(env):
    """autograd through the classifier: the sign is flipped and scaled by alpha"""
    alpha = env.pick("alpha", [1, 2.5, 0.0])
    K = env.pick("K", [1, 3])
    torch.manual_seed(0)
    clf = DomainClassifier(2, n_classes=K, alpha=alpha).double().eval()
    X = POINTS[env.pick("x", [0, 1])]
    g, = torch.autograd.grad((clf(X) * WEIGHTS[K]).sum(), [X])
    o = clf.classifier(X)
    h, = torch.autograd.grad(((o[:, 0] if K == 1 else o) * WEIGHTS[K]).sum(), [X])
    env.cover("reversed")
    env.check(bool(torch.allclose(g, -alpha * h)), "the features' gradient is minus alpha times the plain one")


class Cols(torch.nn.Module):
    def forward(self, X):
        return X * 1.0


class Small(torch.nn.Module):
    """features (x0, x1), scores (x0 + 2 x1, x1 - 3 x0 + 1)"""

    def __init__(self):
        super().__init__()
        self.p = torch.nn.Parameter(torch.ones(1))
        self.feat = Cols()

    def forward(self, X, sample_weight=None):
        f = self.feat(X)
        return torch.stack([f[:, 0] + 2.0 * f[:, 1], f[:, 1] - 3.0 * f[:, 0] + 1.0], dim=1) * self.p


def small(r):
    return [r[0] + 2.0 * r[1], r[1] - 3.0 * r[0] + 1.0]


def random_map(env):
    """CDAN with more products than max_features"""
    n = env.p["n"]
    X = env.reals("x", (n, 2), -3, 3)
    Z = env.reals("z", (n, 2), -3, 3)
    mf = env.pick("max_features", [3, 1])
    seed = env.pick("seed", [42, 0, 7])

    class Rec(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.calls = []

        def forward(self, x):
            self.calls.append(x)
            return x[:, 0]
    rec = Rec()
    m = A.CDANModule(Small(), "feat", rec, max_features=mf, **({} if seed == 42 else dict(random_state=seed)))
    before = torch.random.get_rng_state()
    t = env.tensor
    m(t(X), is_fit=True)
    m(t(Z), is_fit=True)
    m(t(X), is_fit=True)
    one = [m(t(X[k:k + 1]), is_fit=True) for k in range(n)]
    rec = m.domain_classifier_
    env.check(bool((before == torch.random.get_rng_state()).all()), "the global generator is left alone")
    env.cover("mapped")
    a, b, c = env.arr(rec.calls[:3])
    env.check(a.shape == (n, mf), "max_features outputs")
    env.check_eq(a, c, "the same map at every step")
    g = torch.Generator().manual_seed(seed)
    for k in range(n):
        env.check_eq(env.arr(rec.calls[3 + k])[0], a[k], "each row's output depends on that row only")
    # bilinear in features and scores: recover the map on basis inputs from the module itself
    base = env.p.get("basis", [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]])
    # f = (x0, x1), p = B f + e ; out_j = (R1_j . f)(R2_j . p) / sqrt(mf)
    import itertools
    ev = lambda r: env.arr(_dom_in(m, rec, torch.tensor([r])))[0]
    q = {r: ev(list(r)) for r in itertools.product([0.0, 1.0, -1.0], repeat=2)}
    for k in range(n):
        x, y = X[k, 0], X[k, 1]
        for j in range(mf):
            # a quadratic without constant: out = axx x^2 + ayy y^2 + axy xy + ax x + ay y
            axx = (q[1.0, 0.0][j] + q[-1.0, 0.0][j]) / 2
            ax = (q[1.0, 0.0][j] - q[-1.0, 0.0][j]) / 2
            ayy = (q[0.0, 1.0][j] + q[0.0, -1.0][j]) / 2
            ay = (q[0.0, 1.0][j] - q[0.0, -1.0][j]) / 2
            axy = q[1.0, 1.0][j] - axx - ax - ayy - ay
            env.check_eq(a[k, j], float(axx) * x * x + float(ayy) * y * y + float(axy) * x * y + float(ax) * x + float(ay) * y,
                         "product of a linear map of the features and one of the scores", tol=1e-4)
    env.check(all(abs(float(v)) < 1e-9 for v in q[0.0, 0.0]), "no offset")
    # reproducible: another module of the same seed has the same map
    rec2 = Rec()
    m2 = A.CDANModule(Small(), "feat", rec2, max_features=mf, random_state=seed)
    torch.manual_seed(1234)
    env.check_eq(env.arr(_dom_in(m2, rec2, t(X))), a, "the map is determined by random_state")


def _dom_in(m, rec, X):
    m(X, is_fit=True)
    return m.domain_classifier_.calls[-1]


def generator(env):
    seed = env.pick("seed", [0, 5])
    before = torch.random.get_rng_state()
    a = torch.randn(4, generator=check_generator(seed))
    b = torch.randn(4, generator=check_generator(np.int64(seed)))
    env.check(bool((a == b).all()), "an integer seed always gives the same draws")
    env.check(bool((before == torch.random.get_rng_state()).all()), "the global generator is left alone")
    g = torch.Generator()
    env.check(check_generator(g) is g, "a generator is used as it is")
    env.check(check_generator(None) is torch.random.default_generator, "None: the global generator")
    env.raises(lambda: check_generator("x"), ValueError, "anything else is refused")
    env.cover("checked")


# ---------------------------------------------------------------- callbacks

class Flat(torch.nn.Module):
    def forward(self, y, t):
        return (y[:, 0] * 0.0).sum()


def _bare(adapt, **kw):
    opts = dict(D.PLAIN, iterator_train=DomainBalancedDataLoader)
    opts.update(kw)
    net = DomainAwareNet(module=DomainAwareModule, module__base_module=Small(), module__layer_name="feat",
                         criterion=DomainAwareCriterion, criterion__base_criterion=torch.nn.CrossEntropyLoss(),
                         criterion__adapt_criterion=adapt, **opts)
    return net.initialize()


def memory_start(env):
    n = env.p["n"]
    d = env.ints("d", n, -1, 1)
    env.assume(d[0] != 0)
    X = env.array([[1.0 + i, 2.0 - i] for i in range(n)])
    tgt = [k for k in range(n) if d[k] < 0]
    src = [k for k in range(n) if k not in tgt]
    env.assume(len(tgt) > 0 and len(src) > 0)
    draws = env.array([env.pick(f"draw{i}", [[3.0, 4.0], [0.6, 0.8]]) for i in range(len(tgt))])

    def rand(*a, **k):
        env.check(tuple(a[0] if isinstance(a[0], (tuple, list, torch.Size)) else a) == draws.shape, "one memory per target sample")
        return env.tensor(draws)
    env.patch(torch, "rand", rand)
    crit = D.RecAdapt()
    net = _bare(crit)
    cb = MemoryBank()
    ds = DeepDADataset(X, env.array([0] * n), d)
    cb.on_train_begin(net, X=ds, y=None)
    env.cover("started")
    f, o = env.arr(crit.memory_features), env.arr(crit.memory_outputs)
    env.check(f.shape[0] == len(tgt) and o.shape == (len(tgt), 2), "one memory per target sample")
    for i in range(len(tgt)):
        env.check_eq(sum(v * v for v in f[i]), 1.0, "memories of unit length", tol=1e-5)
        env.check_eq(o[i], [0.5, 0.5], "uniform class probabilities", tol=1e-6)


def memory_step(env):
    """one batch: rows, sides and positions arbitrary"""
    n, m = env.p["n"], env.p["m"]
    d = env.ints("d", n, -1, 1)
    X = env.reals("x", (n, 2), -3, 3)
    order = env.perm("i", m)[:n]
    idx = env.array(order)
    tgt = [k for k in range(n) if d[k] < 0]
    env.assume(len(tgt) > 0)
    F0, O0 = env.reals("F", (m, 2), -1, 1), env.reals("O", (m, 2), 0, 1)
    mom = env.pick("momentum", [0.5, 0.25, 0.0, 1.0])
    cr = D.RecAdapt()
    cr.memory_features, cr.memory_outputs = env.tensor(F0 * 1.0), env.tensor(O0 * 1.0)
    net = _bare(cr)
    cb = MemoryBank() if mom == 0.5 else MemoryBank(momentum=mom)
    t = env.tensor
    cb.on_batch_end(net, batch=(dict(X=t(X), sample_domain=t(d), sample_idx=t(idx)), t(env.array([0] * n))), training=True)
    env.cover("moved")
    F1, O1 = env.arr(cr.memory_features), env.arr(cr.memory_outputs)
    env.check(F1.shape == (m, 2) and O1.shape == (m, 2), "no memory added or lost")
    P = {k: env.arr(torch.softmax(t(env.array([small(X[k])])), dim=1))[0] for k in tgt}
    for j in range(m):
        hit = [k for k in tgt if order[k] == j]
        if not hit:
            env.check_eq(F1[j], F0[j], "memories of other samples stay")
            env.check_eq(O1[j], O0[j], "memories of other samples stay")
            continue
        k, = hit
        unit = env.arr(torch.nn.functional.normalize(t(X[k:k + 1]), p=2, dim=1))[0]
        env.check_eq(F1[j], (1.0 - mom) * F0[j] + mom * unit, "memory moved by the momentum to the unit features of its sample")
        sharp = env.array([P[k][c] ** 2 / sum(P[q][c] ** 2 for q in tgt) for c in range(2)])
        env.check_eq(O1[j], (1.0 - mom) * O0[j] + mom * sharp, "outputs moved by the momentum to the sharpened predictions")


class Mem(Callback):
    """snapshots of the memory after each batch"""

    def __init__(self):
        super().__init__()
        self.log = []

    def on_batch_end(self, net, batch=None, **kw):
        c = net.criterion__adapt_criterion
        self.log.append((batch[0], c.memory_features.clone(), c.memory_outputs.clone()))


def centroids(env):
    n = env.p["n"]
    X = env.array(env.pick("X", [[[3.0, 4.0], [4.0, -3.0], [-1.0, 1.0], [0.0, 2.0], [1.0, 0.5]],
                                 [[1.0, 0.0], [2.0, 2.0], [0.0, -5.0], [-3.0, 1.0], [-4.0, -4.0]]])[:n])
    y = env.ints("y", n, 0, 1)
    d = env.ints("d", n, -1, 0)
    src = [k for k in range(n) if d[k] >= 0]
    tgt = [k for k in range(n) if k not in src]
    K = 2
    env.assume(len(tgt) >= 2)
    for c in range(K):
        env.assume(sum(1 for k in src if y[k] == c) > 0)
    masked = env.array([y[k] if k in src else env.pick(f"hide{k}", [0, 1]) for k in range(n)])
    cr = deep.CANLoss()
    net = _bare(cr)
    ComputeSourceCentroids().on_epoch_begin(net, dataset_train=DeepDADataset(X, masked, d))
    env.cover("clustered")
    km = net.criterion__adapt_criterion.target_kmeans
    X = np.array([[float(v) for v in r] for r in X])
    U = X / np.sqrt((X ** 2).sum(1, keepdims=True))
    init = np.array([sum(U[k] for k in src if y[k] == c) for c in range(K)])
    want = SphericalKMeans(n_clusters=K, initial_centroids=torch.tensor(init)).fit(torch.tensor(X[tgt]))
    env.check(km.n_clusters == K, "one cluster per source class")
    env.check(bool(torch.allclose(torch.as_tensor(km.initial_centroids), torch.tensor(init), atol=1e-5)),
              "initial centroids: sums of the normalised features of each source class")
    env.check(bool(torch.allclose(km.cluster_centers_, want.cluster_centers_.to(km.cluster_centers_.dtype), atol=1e-5)),
              "clusters of the target features")


# ---------------------------------------------------------------- factories

class Dom(torch.nn.Module):
    """domain classifier whose output tells features apart"""

    def __init__(self, K=1):
        super().__init__()
        self.K = K

    def forward(self, f):
        if self.K == 1:
            return 2.0 * f[:, 0] - 3.0 * f[:, 1]
        return torch.stack([2.0 * f[:, 0] - 3.0 * f[:, 1], f[:, 1] + 1.0], dim=1)


class Spy(Callback):
    def __init__(self):
        super().__init__()
        self.log, self.ends = [], 0

    def on_batch_begin(self, net, batch=None, training=None, **kw):
        if training:
            c = net.criterion__adapt_criterion
            st = {a: getattr(c, a).clone() for a in ("memory_features", "memory_outputs") if getattr(c, a, None) is not None}
            self.log.append([{k: v.clone() for k, v in batch[0].items()}, batch[1].clone(), getattr(c, "n_epochs", None), st,
                             getattr(c, "target_kmeans", None)])

    def on_train_end(self, net, **kw):
        self.ends += 1


def factory(env):
    name = env.p["name"]
    symbolic = env.p.get("symbolic", True)
    n, b = 4, 2
    X = env.reals("x", (n, 2), -2, 2) if symbolic else env.array([[3.0, 4.0], [0.5, -1.0], [-1.0, 1.0], [2.0, -0.25]])
    for i in range(n):
        X[i, 0] = float(i)
    fixed = env.p.get("epochs", 1) > 1
    y = env.array([1, 0, 0, 0]) if fixed else env.ints("y", n, 0, 1)
    d = env.array(env.pick("d", [[1, -1, -1, 1], [-2, 0, 0, -2]]))
    src = [k for k in range(n) if d[k] >= 0]
    tgt = [k for k in range(n) if d[k] < 0]
    if fixed:
        env.patch(torch, "randperm", lambda n, *a, **k: torch.as_tensor(list(range(n)), dtype=torch.int64))
    else:
        D.arbitrary_shuffles(env)
    if name == "SPA":
        draws = env.array([[3.0, 4.0], [0.6, 0.8]])
        env.patch(torch, "rand", lambda *a, **k: env.tensor(draws))
        _svd(env)
    if name == "CAN":
        for c in range(2):
            env.assume(sum(1 for k in src if y[k] == c) > 0)
    base = D.RecBase()
    reg = env.pick("reg", [None, 0.0, 2.5])
    crit_ = Crit()
    spy = Spy()
    form = env.pick("callbacks", ["list", "one"]) if name in ("CAN", "SPA") else "list"
    given = [spy] if form == "list" else spy
    kw = dict(base_criterion=base, batch_size=b, callbacks=given, **{k: v for k, v in D.PLAIN.items() if k not in ("callbacks",)})
    kw["callbacks__print_log"] = None
    epochs = env.p.get("epochs", 1)
    if name != "SPA":
        kw["max_epochs"] = epochs
    if reg is not None and name not in ("DeepJDOT", "SPA"):
        kw["reg"] = reg
    r = 1 if reg is None else reg
    rd, rc = (0.5, 3.0) if reg == 2.5 else (1, 1)
    fac = getattr(deep, name)
    if name == "DeepCoral":
        cen = env.pick("assume_centered", [None, True])
        net = fac(Small(), "feat", **kw, **(dict(assume_centered=True) if cen else {}))
        loss = lambda a: L.deepcoral_loss(a["fs"], a["ft"], bool(cen))
    elif name == "DAN":
        sig = env.pick("sigmas", [[1.0], [0.5, 2.0]])
        net = fac(Small(), "feat", sigmas=sig, **kw)
        loss = lambda a: L.dan_loss(a["fs"], a["ft"], sigmas=sig)
    elif name == "DeepJDOT":
        tc = env.pick("criterion", [None, lambda p, l: p[:, 0] * (l * 3.0 + 1.0) + p[:, 1] * (l * 2.0)])
        import ot
        env.patch(ot, "emd2", lambda a, b, M, *r, **k: (M * env.tensor(env.array([[1.0, 2.0], [3.0, 5.0]]))).sum())
        net = fac(Small(), "feat", **kw, **(dict(reg_dist=rd, reg_cl=rc) if reg == 2.5 else {}), **(dict(target_criterion=tc) if tc else {}))
        loss = lambda a: L.deepjdot_loss(a["ys"], a["pt"], a["fs"], a["ft"], rd, rc, criterion=tc)
        r = 1
    elif name == "MCC":
        T = env.pick("T", [1, 2.0])
        net = fac(Small(), "feat", **kw, **(dict(T=T) if T != 1 else {}))
        loss = lambda a: L.mcc_loss(a["pt"], T=T)
    elif name == "DANN":
        net = fac(Small(), "feat", domain_classifier=Dom(), domain_criterion=crit_, **kw)
        loss = lambda a: crit([D.dom(v) for v in a["Fs"]], 0.0) + crit([D.dom(v) for v in a["Ft"]], 1.0)
    elif name == "CDAN":
        net = fac(Small(), "feat", domain_classifier=Dom(), domain_criterion=crit_, **kw)
        ml = lambda f: [D.dom([small(v)[0] * v[0], small(v)[0] * v[1]]) for v in f]
        loss = lambda a: crit(ml(a["Fs"]), 0.0) + crit(ml(a["Ft"]), 1.0)
    elif name == "MDD":
        g = env.pick("gamma", [None, 1.5])
        net = fac(Small(), "feat", disc_classifier=Dom(2), **kw, **(dict(gamma=g) if g else {}))

        def loss(a):
            dc = Dom(2)
            return deep.MDDLoss(gamma=g or 4.0)(y_pred_s=a["ps"], y_pred_t=a["pt"], domain_pred_s=dc(a["fs"]), domain_pred_t=dc(a["ft"]))
    elif name == "CAN":
        thr, cth = env.pick("thresholds", [(None, None), (0.9, 1)])
        sig = [0.5, 2.0]
        net = fac(Small(), "feat", sigmas=sig, **kw, **(dict(distance_threshold=thr, class_threshold=cth) if thr else {}))
        loss = lambda a: L.cdd_loss(a["ys"], a["fs"], a["ft"], a["km"], sigmas=sig, distance_threshold=thr or 0.5, class_threshold=cth or 3)
    elif name == "SPA":
        top = epochs
        ra, rg, rn = (1, 1, 1) if reg is None else (reg, 0.5, 3.0)
        net = fac(Small(), "feat", domain_classifier=Dom(), domain_criterion=crit_, max_epochs=top, **kw,
                  **({} if reg is None else dict(reg_adv=ra, reg_gsa=rg, reg_nap=rn)))

        def loss(a):
            s = SPALoss(max_epochs=top, domain_criterion=Crit(), memory_features=a["st"]["memory_features"],
                        memory_outputs=a["st"]["memory_outputs"], reg_adv=ra, reg_gsa=rg, reg_nap=rn, K=env.p["Kmem"])
            s.n_epochs = a["epoch"]
            dc = Dom()
            return s(y_pred_t=a["pt"], domain_pred_s=dc(a["fs"]), domain_pred_t=dc(a["ft"]), features_s=a["fs"], features_t=a["ft"],
                     sample_idx_t=a["ix"])
        r = 1
        net.set_params(criterion__adapt_criterion__K=env.p["Kmem"]) if False else setattr(net.criterion__adapt_criterion, "K", env.p["Kmem"])
    if form == "list":
        env.check(len(given) == 1 and given[0] is spy, "the given callbacks list is left as it was")
    fits = env.p.get("fits", 1)
    ds = DeepDADataset(X, y, d)
    for _ in range(fits):
        net.fit(ds, None)
    env.cover("fitted")
    env.check(spy.ends == fits, "the given callback is used")
    steps = epochs * fits
    env.check(len(spy.log) == steps and len(base.calls) == steps, "one step per epoch of two pairs")
    hist = [bt["train_loss"] for ep in net.history for bt in ep.get("batches", []) if "train_loss" in bt]
    for s, (bx, by, ep, st, km) in enumerate(spy.log):
        XX, dd, ix = env.arr(bx["X"]), env.arr(bx["sample_domain"]), env.arr(bx["sample_idx"])
        by = env.arr(by)
        si = [k for k in range(len(dd)) if dd[k] >= 0]
        ti = [k for k in range(len(dd)) if dd[k] < 0]
        env.check(len(si) == b and len(ti) == b, "balanced batches")
        for k in si + ti:
            q = int(XX[k, 0])
            env.check_eq(XX[k], X[q], "rows of the data")
        ids, idt = [int(XX[k, 0]) for k in si], [int(XX[k, 0]) for k in ti]
        rows = lambda i: [[X[k, 0], X[k, 1]] for k in i]
        Fs, Ft = rows(ids), rows(idt)
        t = lambda a: env.tensor(env.array(a))
        a = dict(Fs=Fs, Ft=Ft, fs=t(Fs), ft=t(Ft), ps=t([small(v) for v in Fs]), pt=t([small(v) for v in Ft]),
                 ys=t([y[k] for k in ids]), ix=t([sum(1 for q in tgt if q < k) for k in idt]), epoch=ep, st=st, km=km)
        if name == "SPA":
            env.check(ep == s % epochs + 1, "epochs counted from one in each fit")
        want = base.value(env, [small(v) for v in Fs], [y[k] for k in ids])
        if r != 0:
            want = want + r * env.arr(loss(a))
        if s >= len(spy.log) - epochs:
            env.check_eq(hist[s - len(spy.log) + len(hist)], want, "step loss: base + reg * adaptation loss of the method")


def factory_refuses(env):
    env.cover("refused")
    f = lambda g: env.raises(g, ValueError, "missing sizes are refused")
    f(lambda: deep.DANN(Small(), "feat"))
    f(lambda: deep.CDAN(Small(), "feat"))
    f(lambda: deep.CDAN(Small(), "feat", num_features=2))
    f(lambda: deep.CDAN(Small(), "feat", n_classes=2))
    f(lambda: deep.MDD(Small(), "feat"))
    f(lambda: deep.SPA(Small(), "feat"))


def factory_sizes(env):
    """the domain classifiers built by the factories take the features they are given"""
    name = env.p["name"]
    nf, nc, mf = env.int("nf", 1, 3), env.int("nc", 2, 3), env.pick("mf", [None, 4])
    nf, nc = int(nf), int(nc)
    kw = dict(num_features=nf)
    inp, out = nf, (2,)
    if name == "CDAN":
        kw["n_classes"] = nc
        if mf:
            kw["max_features"] = mf
        inp = min(nf * nc, mf or 4096)
    if name == "MDD":
        kw["n_classes"] = nc
        out = (2, nc)
    net = getattr(deep, name)(Small(), "feat", **kw)
    clf = net.module__domain_classifier
    env.cover("built")
    env.check(tuple(clf.eval()(torch.ones(2, inp)).shape) == out, "one output per row from the announced number of features")


F9 = ("DeepCoral", "DAN", "DeepJDOT", "MCC", "DANN", "CDAN", "MDD")
INSTANCES = [(f"{c.lower()}_{'custom' if u else 'default'}_{s}{t}", domain_loss, dict(cls=c, custom=u, ns=s, nt=t), dict(cover=["loss"]))
             for c in ("DANNLoss", "CDANLoss") for u in (True, False) for s, t in ((2, 3), (1, 1))]
INSTANCES += [
    ("mce_2_2", mce, dict(n=2, K=2), dict(cover=["loss"])),
    ("mce_2_3", mce, dict(n=2, K=3), dict(cover=["loss"])),
    ("mdd_2_1_2", mdd, dict(ns=2, nt=1, K=2), dict(cover=["loss"])),
    ("mdd_1_2_3", mdd, dict(ns=1, nt=2, K=3), dict(cover=["loss"])),
    ("spa_loss_1", spa_loss, dict(n=1), dict(cover=["loss"])),
    ("spa_loss_2", spa_loss, dict(n=2), dict(cover=["loss"])),
    ("classifier_1", classifier, dict(n=1, K=1), dict(cover=["predicted"])),
    ("classifier_2", classifier, dict(n=2, K=1), dict(cover=["predicted"])),
    ("classifier_2_3", classifier, dict(n=2, K=3), dict(cover=["predicted"])),
    ("classifier_values", classifier_values, dict(K=1), dict(cover=["predicted"])),
    ("classifier_values_3", classifier_values, dict(K=3), dict(cover=["predicted"])),
    ("reversal", reversal, dict(n=2), dict(cover=["reversed"])),
    ("reversal_used", reversal_used, {}, dict(cover=["reversed"])),
    ("random_map", random_map, dict(n=2), dict(cover=["mapped"])),
    ("generator", generator, {}, dict(cover=["checked"])),
    ("memory_start", memory_start, dict(n=3), dict(cover=["started"])),
    ("memory_step", memory_step, dict(n=2, m=3), dict(cover=["moved"])),
    ("centroids", centroids, dict(n=4), dict(cover=["clustered"])),
    ("centroids_5", centroids, dict(n=5), dict(cover=["clustered"])),
    ("factory_refuses", factory_refuses, {}, dict(cover=["refused"])),
]
INSTANCES += [(f"sizes_{f}", factory_sizes, dict(name=f), dict(cover=["built"])) for f in ("DANN", "CDAN", "MDD", "SPA")]
INSTANCES += [(f"factory_{f}", factory, dict(name=f), dict(cover=["fitted"])) for f in F9]
INSTANCES += [
    ("factory_CAN", factory, dict(name="CAN", symbolic=False), dict(cover=["fitted"])),
    ("factory_SPA", factory, dict(name="SPA", symbolic=False, Kmem=1), dict(cover=["fitted"])),
    ("factory_SPA_twice", factory, dict(name="SPA", symbolic=False, Kmem=1, epochs=2, fits=2), dict(cover=["fitted"])),
]
